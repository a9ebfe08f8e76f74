"""Comparison operators: what `{key: {$op: value}}` means."""
from contracts.common import *
from dp.op import Operator as OP, apply_operator

ap = lambda op, lhs, rhs: apply_operator(op=op, lhs=lhs, rhs=rhs)
ORDERED = [OP.LessThan, OP.LessThanOrEqualTo, OP.GreaterThan, OP.GreaterThanOrEqualTo, OP.EqualTo, OP.NotEqualTo]
MEMBER = [OP.EqualTo, OP.NotEqualTo, OP.In, OP.NotIn]
word = StrT(('a', 'b', '1', '2', 'x'))
num = RealT()


def compares(op, lhs, rhs, result):
    if op is OP.LessThan:
        return result == (lhs < rhs)
    if op is OP.LessThanOrEqualTo:
        return result == (lhs <= rhs)
    if op is OP.GreaterThan:
        return result == (lhs > rhs)
    if op is OP.GreaterThanOrEqualTo:
        return result == (lhs >= rhs)
    if op is OP.EqualTo:
        return result == (lhs == rhs)
    return result == (lhs != rhs)


Contract('C08', 'op.numbers', ap, {'op': EnumT(OP, ORDERED), 'lhs': num, 'rhs': num}, {'meaning': compares}, statement='the six comparisons on numbers')
Contract('C08', 'op.integers', ap, {'op': EnumT(OP, ORDERED), 'lhs': IntT(), 'rhs': IntT()}, {'meaning': compares}, statement='the six comparisons on integers')
Contract('C08', 'op.mixed-numbers', ap, {'op': EnumT(OP, ORDERED), 'lhs': IntT(lo=0), 'rhs': num}, {'meaning': compares}, statement='the six comparisons of an integer with a decimal')
Contract('C08', 'op.strings', ap, {'op': EnumT(OP, [OP.EqualTo, OP.NotEqualTo]), 'lhs': word, 'rhs': word}, {'meaning': compares}, statement='equality of strings')
G = GradeCode
SCALE = (G.F, G.D_minus, G.D, G.D_plus, G.C_minus, G.C, G.C_plus, G.B_minus, G.B, G.B_plus, G.A_minus, G.A, G.A_plus)
LETTER = EnumT(GradeCode, SCALE)
NONLETTER = EnumT(GradeCode, [g for g in GradeCode if g not in SCALE])


def compares_grades(op, lhs, rhs, result):
    l, r = SCALE.index(lhs), SCALE.index(rhs)
    if op is OP.LessThan:
        return result == (l < r)
    if op is OP.LessThanOrEqualTo:
        return result == (l <= r)
    if op is OP.GreaterThan:
        return result == (l > r)
    if op is OP.GreaterThanOrEqualTo:
        return result == (l >= r)
    if op is OP.EqualTo:
        return result == (l == r)
    return result == (l != r)


Contract('C08', 'op.grades', ap, {'op': EnumT(OP, ORDERED), 'lhs': LETTER, 'rhs': LETTER}, {'scale': compares_grades}, statement='letter grades compare along F < D- < ... < A < A+')
Contract('C08', 'op.grades-nonletter', ap, {'op': EnumT(OP, ORDERED), 'lhs': NONLETTER, 'rhs': LETTER}, {'below-F': lambda op, result: result == (op in (OP.LessThan, OP.LessThanOrEqualTo, OP.NotEqualTo))},
         statement='a grade that is not a letter (P, S, W, IP ...) is below every letter grade: it never meets a minimum')
Contract('C08', 'op.half-strings', ap, {'op': EnumT(OP, [OP.EqualTo, OP.NotEqualTo]), 'lhs': word, 'rhs': IntT(pool=(1, 2, 3))},
         {'as-text': lambda op, lhs, rhs, result: result == ((lhs == str(rhs)) if op is OP.EqualTo else (lhs != str(rhs)))}, statement='a number compared with text is compared as text')
Contract('C08', 'op.half-strings-left', ap, {'op': EnumT(OP, [OP.EqualTo, OP.NotEqualTo]), 'lhs': IntT(pool=(1, 2, 3)), 'rhs': word},
         {'as-text': lambda op, lhs, rhs, result: result == ((str(lhs) == rhs) if op is OP.EqualTo else (str(lhs) != rhs))}, statement='a number compared with text is compared as text')


def never(result):
    return False


Contract('C08', 'op.none-left', ap, {'op': EnumT(OP), 'lhs': ConstT(None), 'rhs': OneOfT(word, num, SeqT(word))}, {'never-matches': lambda result: result is False}, statement='a missing value satisfies no comparison')
Contract('C08', 'op.none-right', ap, {'op': EnumT(OP), 'lhs': OneOfT(word, num, SeqT(word)), 'rhs': ConstT(None)}, {'never-matches': lambda result: result is False}, statement='nothing compares with a missing value')
Contract('C08', 'op.none-both', ap, {'op': EnumT(OP, [OP.EqualTo, OP.NotEqualTo]), 'lhs': ConstT(None), 'rhs': ConstT(None)}, {'equal': lambda op, result: result == (op is OP.EqualTo)}, statement='two missing values are equal')


def member(op, lhs, rhs, result):
    """{attributes: {$eq: x}}: a list has the value if one element equals it."""
    has = any(v == rhs for v in lhs)
    if op in (OP.EqualTo, OP.In):
        return result == has
    return result == (not has)


def member_rev(op, lhs, rhs, result):
    has = any(v == lhs for v in rhs)
    if op in (OP.EqualTo, OP.In):
        return result == has
    return result == (not has)


for nm, el in (('words', word), ('numbers', num)):
    Contract('C08', f'op.list-left.{nm}', ap, {'op': EnumT(OP, MEMBER), 'lhs': SeqT(el), 'rhs': el}, {'membership': member}, statement='a list equals or contains a value iff one of its elements does; the negations are exact complements')
    Contract('C08', f'op.list-right.{nm}', ap, {'op': EnumT(OP, MEMBER), 'lhs': el, 'rhs': SeqT(el)}, {'membership': member_rev}, statement='a value is in a list iff it equals one of its elements; the negations are exact complements')

Contract('C08', 'op.lists', ap, {'op': ConstT(OP.In), 'lhs': SeqT(word), 'rhs': SeqT(word)}, {'intersect': lambda lhs, rhs, result: result == any(v in rhs for v in lhs)}, statement='two lists match under $in iff they share an element')


def mixed_env(g):
    """Lists that write the same thing now as text, now as a number."""
    one = lambda: g.rng.choice([g.rng.choice(['1', '2', 'a']), g.rng.choice([1, 2, 3])])
    return {'lhs': tuple(one() for _ in range(g.rng.randint(0, 3))), 'rhs': tuple(one() for _ in range(g.rng.randint(0, 3)))}


def shares(lhs, rhs, result):
    return result == any(str(v) == str(w) for v in lhs for w in rhs)


Contract('C08', 'op.lists.text-number', ap, {'op': ConstT(OP.In), 'lhs': SeqT(word), 'rhs': SeqT(IntT(pool=(1, 2, 3)))}, {'intersect-as-text': shares}, statement='two lists share an element when one of each reads the same, numbers taken as text')
Contract('C08', 'op.lists.number-text', ap, {'op': ConstT(OP.In), 'lhs': SeqT(IntT(pool=(1, 2, 3))), 'rhs': SeqT(word)}, {'intersect-as-text': shares}, statement='two lists share an element when one of each reads the same, numbers taken as text')
Contract('C08', 'op.lists.mixed', ap, {'op': ConstT(OP.In)}, {'intersect-as-text': shares}, mode='bounded', gen=mixed_env, gen_n=40, note='random lists of up to three elements, each text or a number', functions=['dp.op:apply_operator__tuples'],
         statement='two lists share an element when one of each reads the same, numbers taken as text')
Contract('C08', 'op.lists-refused', ap, {'op': EnumT(OP, [o for o in OP if o is not OP.In]), 'lhs': SeqT(word), 'rhs': SeqT(word)}, {'refused': never}, exc=lambda exc: True, statement='two lists under any other operator are an error, never an answer')
Contract('C08', 'op.list-ordering-refused', ap, {'op': EnumT(OP, [OP.LessThan, OP.LessThanOrEqualTo, OP.GreaterThan, OP.GreaterThanOrEqualTo]), 'lhs': SeqT(word), 'rhs': word}, {'refused': never}, exc=lambda exc: True, statement='ordering a list against a value is an error, never an answer')
Contract('C08', 'op.complement', lambda op, lhs, rhs: (ap(OP.EqualTo, lhs, rhs), ap(OP.NotEqualTo, lhs, rhs)), {'lhs': OneOfT(word, SeqT(word)), 'rhs': word, 'op': ConstT(None)}, {'complement': lambda result: result[0] != result[1]}, statement='$neq is the exact negation of $eq')
