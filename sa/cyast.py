"""Dumps the syntax trees of Cython and Python sources as JSON, one line per file (run by the interpreter that has Cython)."""
import sys
import json
from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler.Nodes import Node
def conv(n):
    if isinstance(n,Node):
        d={'_':type(n).__name__,'line':n.pos[1] if n.pos else 0}
        for k,v in vars(n).items():
            if k in('pos','_') or k in n.child_attrs: continue
            if isinstance(v,(str,int,float,bool,bytes)): d[k]=conv(v)
        for k in n.child_attrs: d[k]=conv(getattr(n,k,None))
        for k in ('base_type','exception_value','decorators','declarator','args'):
            if k not in d and isinstance(getattr(n,k,None),(Node,list)): d[k]=conv(getattr(n,k))
        if hasattr(n,'items') and isinstance(n.items,list): d['names']=[t.name for _,t in n.items]
        if hasattr(n,'imported_names'): d['names']=[x[2] or x[1] for x in n.imported_names]
        if isinstance(getattr(n,'bases',None),Node) and 'bases' not in d: d['bases']=conv(n.bases)
        return d
    if isinstance(n,(list,tuple)): return [conv(v) for v in n]
    if isinstance(n,bytes): return n.decode('latin1')
    return n if isinstance(n,(int,float,bool)) or n is None else str(n)
for f in sys.argv[1:]:
    t=parse_from_strings('m',open(f).read())
    print(json.dumps(conv(t)))
