"""Sorts, spec functions and the lemma library of the verifier.

Every axiom below is either the definition of a spec function or a mathematical
lemma about it (proved in /verif/lean, see LEAN column of the registry).  Only
the axioms about symbols that occur in an obligation are passed to the solver.
"""
import z3
from z3 import (IntSort, RealSort, BoolSort, ArraySort, DeclareSort, Function,
                ForAll, Exists, And, Or, Not, Implies, If, Select, Store,
                Const, Int, IntVal, RealVal, BoolVal, K, MultiPattern)


def patch_forall():
    """drop instantiation patterns the solvers do not accept"""
    orig = z3.ForAll
    if getattr(orig, 'filtered', False):
        return

    def ForAll(vs, body, weight=1, qid='', skid='', patterns=(),
               no_patterns=()):
        try:
            return orig(vs, body, weight, qid, skid, patterns, no_patterns)
        except z3.Z3Exception:
            good = []
            for p in patterns:
                try:
                    orig(vs, body, weight, qid, skid, [p])
                    good.append(p)
                except z3.Z3Exception:
                    pass
            return orig(vs, body, weight, qid, skid, good, no_patterns)
    ForAll.filtered = True
    z3.ForAll = ForAll


patch_forall()

I, R, B = IntSort(), RealSort(), BoolSort()
SetI = ArraySort(I, B)
IA = ArraySort(I, I)
RA = ArraySort(I, R)
GS = ArraySort(I, SetI)          # adjacency: G[i][j]
Row = DeclareSort('Row')         # one area's attribute vector
RowA = ArraySort(I, Row)
VA = ArraySort(I, RA)            # matrix of reals, VA[i][c]

INF = Const('INF', R)

# ---------------------------------------------------------------- symbols
Nrm = Function('Nrm', IA, I, IA)                 # L on [0,n), 0 elsewhere
Region = Function('Region', IA, I, I, SetI)      # {i in [0,n): L[i]==r}
LabelSet = Function('LabelSet', IA, I, SetI)     # {L[i] : i in [0,n)}
lab_w = Function('lab_w', IA, I, I, I)           # witness index of a label
AllSet = Function('AllSet', I, SetI)             # {0..n-1}
Card = Function('Card', SetI, I)
NE = Function('NE', SetI, B)
ne_w = Function('ne_w', SetI, I)
Conn = Function('Conn', GS, SetI, B)
SubG = Function('SubG', GS, IA, I, GS)           # induced subgraph, m nodes
Img = Function('Img', SetI, IA, SetI, SetI)      # {x in S: inv[x] in T}
Sym = Function('Sym', GS, B)                      # symmetric adjacency
NComp = Function('NComp', GS, I, I)
Dist = Function('Dist', Row, Row, R)             # the metric
SumR = Function('SumR', SetI, RA, R)             # sum over a finite set
PW = Function('PW', IA, I, RowA, R)              # pairwise objective
DTo = Function('DTo', RowA, Row, RA)             # i -> Dist(attr[i], row)
Col = Function('Col', VA, I, RA)                 # column of a matrix
nbr_in = Function('nbr_in', GS, SetI, I, I)      # a neighbor of x inside S
Del = Function('Del', SetI, I, SetI)             # S \ {x}
Ins = Function('Ins', SetI, I, SetI)             # S + {x}
Fin = Function('Fin', SetI, B)                   # finite set
Empty = Const('Empty', SetI)
Sum2 = Function('Sum2', GS, VA, R)               # sum over a set of pairs
VI = ArraySort(I, IA)
NLinks = Function('NLinks', GS, I, I)
CompLab = Function('CompLab', GS, I, IA)         # component labels
CompOf = Function('CompOf', IA, SetI, I)  # component of a connected set
Exp = Function('Exp', R, R)
GoodP = Function('GoodP', IA, I, B)   # whatever a move strategy guarantees
Obj = Function('Obj', IA, I, RowA, R)            # an arbitrary objective
Bord = Function('Bord', GS, SetI, I, B)          # x has a neighbor in S
bord_w = Function('bord_w', GS, SetI, I, I)
PWD = Function('PWD', IA, I, GS)
PWV = Function('PWV', RowA, VA)


SumI = Function('SumI', SetI, IA, I)             # sum of integers over a set
Forest = Function('Forest', GS, I, B)            # acyclic, one way per link


class Lemma(object):
    def __init__(self, name, keys, formula, kind, lean=None):
        self.name, self.formula, self.kind = name, formula, kind
        self.keys = set(k.name() for k in keys)      # all must occur
        self.lean = lean


LEMMAS = []


def lemma(name, keys, formula, kind='lemma', lean=None):
    LEMMAS.append(Lemma(name, keys, formula, kind, lean or name))


def FA(vs, body, *pats):
    return ForAll(vs, body, patterns=[p if not isinstance(p, (tuple, list))
                                      else MultiPattern(*p) for p in pats])


_L, _L2 = Const('L', IA), Const('L2', IA)
_n, _r, _i, _j, _a, _v, _x, _y, _m = [Int(s) for s in
                                      'n r i j a v x y m'.split()]
_G, _H = Const('G', GS), Const('H', GS)
_S, _T = Const('S', SetI), Const('T', SetI)
_f, _g = Const('f', RA), Const('g', RA)
_at = Const('at', RowA)
_row = Const('row', Row)
_idx, _inv = Const('idx', IA), Const('inv', IA)
_M = Const('M', VA)
_c = Int('c')

lemma('region_def', [Region],
      FA([_L, _n, _r, _i], Region(_L, _n, _r)[_i] ==
         And(0 <= _i, _i < _n, _L[_i] == _r), Region(_L, _n, _r)[_i]), 'def')
lemma('region_in', [Region],
      FA([_L, _n, _r, _i], Implies(And(0 <= _i, _i < _n, _L[_i] == _r),
                                   Region(_L, _n, _r)[_i]),
         (Region(_L, _n, _r), _L[_i])), 'def')
lemma('nrm_def', [Nrm],
      FA([_L, _n, _i], Nrm(_L, _n)[_i] == If(And(0 <= _i, _i < _n), _L[_i], 0),
         Nrm(_L, _n)[_i]), 'def')
lemma('nrm_region', [Nrm, Region],
      FA([_L, _n, _r], Region(Nrm(_L, _n), _n, _r) == Region(_L, _n, _r),
         Region(Nrm(_L, _n), _n, _r)))
lemma('nrm_labelset', [Nrm, LabelSet],
      FA([_L, _n], LabelSet(Nrm(_L, _n), _n) == LabelSet(_L, _n),
         LabelSet(Nrm(_L, _n), _n)))
lemma('nrm_obj', [Nrm, Obj],
      FA([_L, _n, _at], Obj(Nrm(_L, _n), _n, _at) == Obj(_L, _n, _at),
         Obj(Nrm(_L, _n), _n, _at)))
lemma('nrm_good', [Nrm, GoodP],
      FA([_L, _n], GoodP(Nrm(_L, _n), _n) == GoodP(_L, _n),
         GoodP(Nrm(_L, _n), _n)))
lemma('region_store', [Region],
      FA([_L, _n, _a, _v, _r],
         Implies(And(0 <= _a, _a < _n),
                 Region(Store(_L, _a, _v), _n, _r) ==
                 If(_r == _v, Ins(Region(_L, _n, _r), _a),
                    If(_r == _L[_a], Del(Region(_L, _n, _r), _a),
                       Region(_L, _n, _r)))),
         Region(Store(_L, _a, _v), _n, _r)))
lemma('labelset_in', [LabelSet],
      FA([_L, _n, _i], Implies(And(0 <= _i, _i < _n),
                               LabelSet(_L, _n)[_L[_i]]),
         (LabelSet(_L, _n), _L[_i])), 'def')
lemma('labelset_w', [LabelSet],
      FA([_L, _n, _r], Implies(LabelSet(_L, _n)[_r],
                               And(0 <= lab_w(_L, _n, _r),
                                   lab_w(_L, _n, _r) < _n,
                                   _L[lab_w(_L, _n, _r)] == _r)),
         LabelSet(_L, _n)[_r]), 'def')
lemma('labelset_store', [LabelSet],
      FA([_L, _n, _a, _v],
         Implies(And(0 <= _a, _a < _n),
                 FA([_r], LabelSet(Store(_L, _a, _v), _n)[_r] ==
                    Or(_r == _v,
                       And(LabelSet(_L, _n)[_r],
                           Or(_r != _L[_a],
                              NE(Del(Region(_L, _n, _r), _a))))),
                    LabelSet(Store(_L, _a, _v), _n)[_r])),
         LabelSet(Store(_L, _a, _v), _n)))
lemma('labelset_store_keep', [LabelSet],
      FA([_L, _n, _a, _v],
         Implies(And(0 <= _a, _a < _n, LabelSet(_L, _n)[_v],
                     Or(_v == _L[_a], NE(Del(Region(_L, _n, _L[_a]), _a)))),
                 LabelSet(Store(_L, _a, _v), _n) == LabelSet(_L, _n)),
         LabelSet(Store(_L, _a, _v), _n)))
lemma('del_def', [Del],
      FA([_S, _x, _y], Del(_S, _x)[_y] == And(_S[_y], _y != _x),
         Del(_S, _x)[_y]), 'def')
lemma('ins_def', [Ins],
      FA([_S, _x, _y], Ins(_S, _x)[_y] == Or(_S[_y], _y == _x),
         Ins(_S, _x)[_y]), 'def')
lemma('ins_member', [Ins],
      FA([_S, _x], Implies(_S[_x], Ins(_S, _x) == _S), Ins(_S, _x)))
lemma('del_nonmember', [Del],
      FA([_S, _x], Implies(Not(_S[_x]), Del(_S, _x) == _S), Del(_S, _x)))
lemma('allset_def', [AllSet],
      FA([_n, _i], AllSet(_n)[_i] == And(0 <= _i, _i < _n),
         AllSet(_n)[_i]), 'def')
lemma('ne_in', [NE], FA([_S, _x], Implies(_S[_x], NE(_S)), (NE(_S), _S[_x])),
      'def')
lemma('ne_w', [NE], FA([_S], Implies(NE(_S), _S[ne_w(_S)]), NE(_S)), 'def')
lemma('fin_del', [Fin, Del], FA([_S, _x], Implies(Fin(_S), Fin(Del(_S, _x))),
                                Del(_S, _x)))
lemma('fin_ins', [Fin, Ins], FA([_S, _x], Implies(Fin(_S), Fin(Ins(_S, _x))),
                                Ins(_S, _x)))
lemma('fin_region', [Fin, Region], FA([_L, _n, _r], Fin(Region(_L, _n, _r)),
                                      Region(_L, _n, _r)))
lemma('fin_labelset', [Fin, LabelSet], FA([_L, _n], Fin(LabelSet(_L, _n)),
                                          LabelSet(_L, _n)))
lemma('fin_allset', [Fin, AllSet], FA([_n], Fin(AllSet(_n)), AllSet(_n)))
lemma('card_ne', [Card], FA([_S], And(Card(_S) >= 0,
                                      Implies(Fin(_S), (Card(_S) == 0) ==
                                              Not(NE(_S)))),
                            Card(_S)))
lemma('card_del', [Card],
      FA([_S, _x], Implies(And(Fin(_S), _S[_x]),
                           Card(Del(_S, _x)) == Card(_S) - 1),
         (Card(_S), Del(_S, _x))))
lemma('card_ins', [Card, Ins],
      FA([_S, _x], Implies(And(Fin(_S), Not(_S[_x])),
                           Card(Ins(_S, _x)) == Card(_S) + 1),
         (Card(Ins(_S, _x)),)))
lemma('card_allset', [Card, AllSet],
      FA([_n], Implies(_n >= 0, Card(AllSet(_n)) == _n), Card(AllSet(_n))))
lemma('conn_ne', [Conn], FA([_G, _S], Implies(Conn(_G, _S), NE(_S)),
                            Conn(_G, _S)))
lemma('conn_ins', [Conn, Ins],
      FA([_G, _S, _x, _y],
         Implies(And(Conn(_G, _S), _S[_y], _G[_x][_y]),
                 Conn(_G, Ins(_S, _x))),
         (Conn(_G, Ins(_S, _x)), _G[_x][_y])))
lemma('subg_def', [SubG],
      FA([_G, _idx, _m, _i, _j], SubG(_G, _idx, _m)[_i][_j] == And(
          0 <= _i, _i < _m, 0 <= _j, _j < _m, _G[_idx[_i]][_idx[_j]]),
         SubG(_G, _idx, _m)[_i][_j]), 'def')
lemma('img_def', [Img],
      FA([_S, _inv, _T, _x], Img(_S, _inv, _T)[_x] == And(_S[_x], _T[_inv[_x]]),
         Img(_S, _inv, _T)[_x]), 'def')
lemma('dto_def', [DTo], FA([_at, _row, _i], DTo(_at, _row)[_i] ==
                           Dist(_at[_i], _row), DTo(_at, _row)[_i]), 'def')
lemma('col_def', [Col], FA([_M, _c, _i], Col(_M, _c)[_i] == _M[_i][_c],
                           Col(_M, _c)[_i]), 'def')
lemma('sum_del', [SumR],
      FA([_S, _x, _f], Implies(And(Fin(_S), _S[_x]), SumR(Del(_S, _x), _f) ==
                               SumR(_S, _f) - _f[_x]),
         SumR(Del(_S, _x), _f)))
lemma('sum_ins', [SumR],
      FA([_S, _x, _f], Implies(And(Fin(_S), Not(_S[_x])), SumR(Ins(_S, _x), _f) ==
                               SumR(_S, _f) + _f[_x]),
         SumR(Ins(_S, _x), _f)))
lemma('pw_move', [PW],
      FA([_L, _n, _a, _v, _at],
         Implies(And(0 <= _a, _a < _n, _v != _L[_a]),
                 PW(Store(_L, _a, _v), _n, _at) ==
                 PW(_L, _n, _at)
                 - SumR(Del(Region(_L, _n, _L[_a]), _a), DTo(_at, _at[_a]))
                 + SumR(Region(_L, _n, _v), DTo(_at, _at[_a]))),
         PW(Store(_L, _a, _v), _n, _at)))
lemma('dist_metric', [Dist],
      FA([_row], Dist(_row, _row) == 0, Dist(_row, _row)), 'assumption')
lemma('pw_def', [PW],
      FA([_L, _n, _at], PW(_L, _n, _at) == Sum2(PWD(_L, _n), PWV(_at)),
         PW(_L, _n, _at)), 'def')
lemma('pwd_def', [PWD],
      FA([_L, _n, _i, _j], PWD(_L, _n)[_i][_j] ==
         And(0 <= _i, _i < _j, _j < _n, _L[_i] == _L[_j]),
         PWD(_L, _n)[_i][_j]), 'def')
lemma('pwv_def', [PWV],
      FA([_at, _i, _j], PWV(_at)[_i][_j] == Dist(_at[_i], _at[_j]),
         PWV(_at)[_i][_j]), 'def')
lemma('bord_in', [Bord],
      FA([_G, _S, _x, _y], Implies(And(_S[_y], _G[_x][_y]), Bord(_G, _S, _x)),
         (Bord(_G, _S, _x), _S[_y], _G[_x][_y])), 'def')
lemma('bord_in2', [Bord],
      FA([_G, _S, _x, _y], Implies(And(_S[_y], _G[_x][_y]), Bord(_G, _S, _x)),
         (Bord(_G, _S, _x), _G[_x][_y])), 'def')
lemma('bord_w', [Bord],
      FA([_G, _S, _x], Implies(Bord(_G, _S, _x),
                               And(_S[bord_w(_G, _S, _x)],
                                   _G[_x][bord_w(_G, _S, _x)])),
         Bord(_G, _S, _x)), 'def')
lemma('conn_ins_bord', [Conn, Ins],
      FA([_G, _S, _x], Implies(And(Conn(_G, _S), Bord(_G, _S, _x)),
                               Conn(_G, Ins(_S, _x))),
         (Conn(_G, Ins(_S, _x)),)))

lemma('conn_nbr', [Conn, Del, Bord],
      FA([_G, _S, _x],
         Implies(And(Conn(_G, _S), _S[_x], NE(Del(_S, _x))),
                 Or(Bord(_G, Del(_S, _x), _x),
                    Not(Sym(_G)))),
         (Conn(_G, _S), Bord(_G, Del(_S, _x), _x))))
lemma('sumi_ins', [SumI],
      FA([_S, _x, _L], Implies(And(Fin(_S), Not(_S[_x])),
                               SumI(Ins(_S, _x), _L) == SumI(_S, _L) + _L[_x]),
         SumI(Ins(_S, _x), _L)))
lemma('sumi_del', [SumI],
      FA([_S, _x, _L], Implies(And(Fin(_S), _S[_x]),
                               SumI(Del(_S, _x), _L) == SumI(_S, _L) - _L[_x]),
         SumI(Del(_S, _x), _L)))
lemma('sumi_store', [SumI],
      FA([_S, _x, _v, _L], Implies(Fin(_S), SumI(_S, Store(_L, _x, _v)) ==
                                   If(_S[_x], SumI(_S, _L) - _L[_x] + _v,
                                      SumI(_S, _L))),
         SumI(_S, Store(_L, _x, _v))))
lemma('store_ins', [SumI],
      FA([_S, _x], Store(_S, _x, BoolVal(True)) == Ins(_S, _x),
         Store(_S, _x, BoolVal(True))), 'def')
lemma('sumi_empty', [SumI],
      FA([_S, _L], Implies(Not(NE(_S)), SumI(_S, _L) == 0), SumI(_S, _L)))
lemma('forest_comp', [Forest],
      FA([_G, _n], Implies(Forest(_G, _n),
                           NComp(_G, _n) == _n - NLinks(_G, _n)),
         Forest(_G, _n)))
lemma('sym_def', [Sym],
      FA([_G], Sym(_G) == FA([_i, _j], _G[_i][_j] == _G[_j][_i], _G[_i][_j]),
         Sym(_G)), 'def')


def symbols_of(exprs, cache={}):
    """names of the uninterpreted functions occurring in the expressions"""
    out, seen, stack = set(), set(), list(exprs)
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                out.add(d.name())
            stack.extend(e.children())
    return out


_LS = {}


def axioms_for(exprs, skip=()):
    """the lemmas relevant to the symbols in exprs (closed transitively)"""
    syms = symbols_of(exprs)
    chosen, names = [], []
    todo = [lm for lm in LEMMAS if lm.name not in skip]
    changed = True
    while changed:
        changed = False
        rest = []
        for lm in todo:
            if lm.keys <= syms:
                chosen.append(lm)
                if lm.name not in _LS:
                    _LS[lm.name] = symbols_of([lm.formula])
                syms |= _LS[lm.name]
                changed = True
            else:
                rest.append(lm)
        todo = rest
    return chosen
