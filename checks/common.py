"""Facts about well-formed handles that the checks rely on."""
# a position obtained from the library, and the sizes of an opened block, are never negative
NONNEG = {('BigBlockPtr', 'fileid'), ('BigBlockPtr', 'roffset'), ('BigBlockPtr', 'aoffset'), ('BigBlock', 'Nfile'), ('BigBlock', 'nmemb'),
          ('BigBlock', 'size'), ('BigBlock', 'fsize', '*'), ('BigBlock', 'foffset', '*'), ('BigAttrSet', 'listused'), ('BigAttrSet', 'listsize'),
          ('BigAttrSet', 'bufused'), ('BigAttrSet', 'bufsize'), ('BigArray', 'size'), ('BigAttr', 'nmemb')}
