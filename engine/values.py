"""Value domain of the symbolic executor."""
import struct, math
from fractions import Fraction
import z3

class Unsupported(Exception): pass

class _Undef:
    def __repr__(s): return 'UNDEF'
UNDEF=_Undef()

def f32(x):
    try: return struct.unpack('f',struct.pack('f',x))[0]
    except OverflowError: return math.inf if x>0 else -math.inf

class Obj:
    """memory object: typed cells at concrete byte offsets"""
    __slots__=('id','size','cells','default','name','base','owner','kind','const','arr','es','alive','ety')
    def __init__(s,id,size,name,base,default='undef',kind='heap'):
        s.id=id; s.size=size; s.cells={}; s.default=default; s.name=name; s.base=base; s.owner=None; s.kind=kind; s.const=False
        s.arr=None; s.es=0; s.ety=None
    def clone(s):
        o=Obj.__new__(Obj)
        o.id=s.id; o.size=s.size; o.cells=dict(s.cells); o.default=s.default; o.name=s.name; o.base=s.base; o.owner=None
        o.kind=s.kind; o.const=s.const; o.arr=s.arr; o.es=s.es; o.ety=s.ety
        return o

class Ptr:
    """pointer: object id + byte offset.  off = int, or z3 BV64 with off = c (mod g)"""
    __slots__=('o','off','c','g')
    def __init__(s,o,off,c=0,g=0): s.o=o; s.off=off; s.c=c; s.g=g
    def __repr__(s): return 'Ptr(%s+%s)'%(s.o,s.off)
    def same(s,t): return s.o==t.o and (s.off==t.off if isinstance(s.off,int) and isinstance(t.off,int) else (not isinstance(s.off,int) and not isinstance(t.off,int) and s.off.eq(t.off)))

NULL=Ptr(0,0)

class PtrU:
    """guarded pointer union: list of (z3 cond, Ptr); conditions exclusive and exhaustive under the pc"""
    __slots__=('alts',)
    def __init__(s,alts): s.alts=alts
    def __repr__(s): return 'PtrU(%r)'%([p for _,p in s.alts],)

class FnRef:
    __slots__=('fn',)
    def __init__(s,fn): s.fn=fn

class Blob:
    """uninterpreted bytes: little-endian list of (size,value) pieces"""
    __slots__=('pieces','size')
    def __init__(s,pieces): s.pieces=pieces; s.size=sum(p[0] for p in pieces)
    def __repr__(s): return 'Blob(%r)'%(s.pieces,)

FS={32:z3.Float32(),64:z3.Float64()}
RNE=z3.RNE()
B64=z3.BitVecSort(64)

def is_sym(v): return isinstance(v,z3.ExprRef)

def bvv(v,bits):
    return z3.BitVecVal(v,bits) if isinstance(v,int) else v

def fpv(v,bits):
    """python float -> z3 FP literal, exact"""
    if isinstance(v,z3.ExprRef): return v
    if bits==32:
        if v!=v: return z3.fpNaN(FS[32])
        return z3.fpBVToFP(z3.BitVecVal(struct.unpack('I',struct.pack('f',v))[0],32),FS[32]) if False else z3.simplify(z3.fpBVToFP(z3.BitVecVal(struct.unpack('I',struct.pack('f',v))[0],32),FS[32]))
    if v!=v: return z3.fpNaN(FS[64])
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(struct.unpack('Q',struct.pack('d',v))[0],64),FS[64]))

def float_bits(v,bits):
    if bits==32:
        if v!=v: return 0x7fc00000
        return struct.unpack('I',struct.pack('f',v))[0]
    return struct.unpack('Q',struct.pack('d',v))[0]

def bits_float(v,bits):
    if bits==32: return struct.unpack('f',struct.pack('I',v))[0]
    return struct.unpack('d',struct.pack('Q',v))[0]

def mask(b): return (1<<b)-1
def sgn(v,b): return v-(1<<b) if v>>(b-1) else v
