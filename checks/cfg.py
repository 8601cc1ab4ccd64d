#!/usr/bin/env python3
"""writes properties_cfg.json"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
RULE = "cases are written in the engine's term language: every small term over the property's root operations, then seeded random terms whose constants include those harvested from the source; each is run against the real crate and judged by an independent exact/interval oracle; a case is non-trivial when the oracle could decide it"
PROOF = 'contract-based deductive verification: the functions of /repo/src re-emitted mechanically on every run and verified by Verus/z3 against written contracts'
cfg = {}
for i in range(1, 21):
    cfg['C%02d' % i] = dict(level='exploration', technique='bounded stand-in (contracts in progress)', level_note='bounded exploration of the real crate against an independent oracle', rule=RULE, secs=15, families=[])
def proof(i, note, *fams, secs=15):
    cfg[i].update(level='proof', technique=PROOF, level_note=note, families=[dict(family=f, own=o) for f, o in fams], secs=secs)
ADD = ['Expression::addition', 'Expression::subtraction'] + ['%s<%s> for %s' % (o, a, b) for o in ('Add', 'Sub') for a in ('Expression', '&Expression') for b in ('Expression', '&Expression')] + ['Neg<Expression> for Expression', 'Neg<&Expression> for &Expression']
MUL = ['Expression::multiplication'] + ['Mul<%s> for %s' % (a, b) for a in ('Expression', '&Expression') for b in ('Expression', '&Expression')]
REALS = ' Machine arithmetic is read as mathematical: f64 as real numbers, to_f64 as exact.'
proof('C01', 'For every list of operands and every assignment of the variables the value of the built sum, difference or negation is the sum, difference or negation of the values; unbounded.' + REALS, ('V', ADD))
proof('C02', 'For every list of operands and every assignment of the variables the value of the built product is the product of the values; unbounded.' + REALS, ('V', MUL))
FOUR = lambda o: ['%s<%s> for %s' % (o, a, b) for a in ('Expression', '&Expression') for b in ('Expression', '&Expression')]
LAWS = ' Powers and logarithms of real numbers are any functions satisfying the laws listed in the trusted base (contracts/powers.rs). Recursion: partial correctness (termination is C15).'
PM = ['Expression::multiplication']
proof('C03', 'For all operands, divisor of non-zero value: the value of the built quotient is the quotient of the values; with operands made of positive quantities the quotient is too; a quotient that is defined had a divisor of non-zero value.' + LAWS + REALS, ('X', ['Expression::division', 'Symbol<BigInt>::gcd'] + FOUR('Div')), ('V', PM), ('S', PM))
proof('C04', 'For all bases and exponents in the domain of the power: the value of what is built is the power of the values, defined, and positive throughout if the base is.' + LAWS + REALS, ('X', ['Expression::power', 'Expression::pow', 'Symbol<BigInt>::pow']), ('V', PM), ('S', PM))
proof('C05', 'For all arguments of positive value and bases of positive value other than one: the value of what is built is the logarithm of the values; an integer result is checked by the code itself by exact exponentiation, and the proof rests on that check.' + LAWS + REALS, ('X', ['Expression::logarithm', 'Expression::log', 'Symbol<BigInt>::pow']))
XA = ['Expression::division', 'Expression::power', 'Expression::logarithm']
NEG = ['Neg<Expression> for Expression', 'Neg<&Expression> for &Expression']
BASE = [('X', XA[1:]), ('V', ['Expression::addition', 'Expression::multiplication']), ('S', ['Expression::addition', 'Expression::multiplication'])]
proof('C06', 'For all expressions: the expansion is defined wherever the expression is, and has the same value there. Recursion: partial correctness (termination is C15).' + REALS + LAWS, ('E', ['Expression::expand', 'MultiplicativeDistributive::apply', 'distribute', 'PowerDistributiveAddition::apply']), *BASE)
proof('C17', 'For all expressions: what each rule returns is defined wherever the expression is, and has the same value there.' + REALS + LAWS, ('E', ['InversePowerLog::apply', 'SingleAlgebraicDenominator::apply', 'PowerDistributiveMultiplication::apply'] + NEG), *BASE)
SIMP = ['Expression::simplify', 'RationalsAddition::apply', 'RationalsMultiplication::apply', 'AdditiveCommonAddend::apply', 'MultiplicativeCommonFactor::apply', 'update_addend_list', 'CommutativeAssociation::map', 'CommutativeAssociation::get_rationals', 'CommutativeAssociation::get_non_rationals'] + ['Rational::from_expression', 'Rational::from', 'Rational::expr'] + ['%s<Rational> for Rational' % o for o in ('Add', 'Sub', 'Mul', 'Div')]
EXP = ('E', ['Expression::expand', 'MultiplicativeDistributive::apply', 'distribute', 'PowerDistributiveAddition::apply'])
XB = ('X', XA + ['Expression::subtraction'] + NEG)
proof('C07', 'For all expressions built through the public operations: the simplified expression is defined wherever the expression is, and has the same value there; the tables of terms and factors are proved to stand for the same sum and product at every step. Recursion: partial correctness (termination is C15).' + REALS + LAWS, ('Q', SIMP), EXP, XB, *BASE[1:])
CMP = ['Expression::' + x for x in ('comparable', 'equal', 'not_equal', 'greater', 'lesser', 'greater_equal', 'lesser_equal')]
proof('C08', 'For all pairs of expressions: a comparison that answers yes is proved right of the two values wherever both are defined; which answer is given is proved to be decided by the sign of the simplified difference, so exactly one of the three answers yes on comparable pairs. That simplifying the same difference twice gives the same sign is assumed (see DESIGN.md).' + REALS + LAWS, ('Q', CMP + ['Sub<&Expression> for &Expression', 'Sub<Expression> for Expression', 'lemma lem_exactly_one'] + SIMP), EXP, XB, *BASE[1:])
OT = ['CommutativeAssociation', 'AssociativeOperation', 'Operation', 'Expression']
SY = ['Symbol<BigInt>', 'Symbol<f64>', 'Symbol<String>']
proof('C09', 'Equality is proved to be structural identity and the ordering to follow a total order on which only identical expressions are equal, for all expressions; not-a-number left aside.' + REALS,
      ('O', ['PartialEq for %s::eq' % t for t in OT + SY] + ['Ord for %s::cmp' % t for t in OT + SY] + ['PartialOrd for %s::partial_cmp' % t for t in OT + SY if t != 'Symbol<f64>'] + ['Expression::id'] + ['lemma order_' + l for l in ('ranks', 'equal_iff_same', 'equal_seq', 'flip', 'flip_seq', 'transitive', 'trans_two', 'trans_seq', 'str_eq', 'str_flip', 'str_trans')]))
proof('C10', 'What is fed to a hasher is proved to be a function of what equality looks at, for all expressions.' + REALS + ' Both zeros of f64: family K, property C18.',
      ('O', ['Hash for %s::hash' % t for t in OT + SY] + ['PartialEq for %s::eq' % t for t in OT + SY] + ['lemma hash_equal']))
proof('C16', 'For every list of operands: the listing has the same multiset of operands, in order, and each selector returns the filter of the listing by the predicate stated. That std\'s heap lists its contents in the order of their comparison is trusted.',
      ('O', ['CommutativeAssociation::' + x for x in ('new', 'items', 'get', 'get_one', 'map', 'get_reals', 'get_rational_numerators', 'get_rational_denominators', 'get_rationals', 'get_non_rationals', 'get_symbolics')] + ['lemma order_partition']))
proof('C18', 'For every pair of doubles, not-a-number, infinities and both zeros included: each of the sixteen operators on constants returns what the machine operation of the same name returns on the same operands in the same order (the machine operations themselves are uninterpreted functions: IEEE arithmetic is the processor\'s), equality and both orderings are the comparisons of doubles, equal constants feed a hasher alike.',
      ('K', ['%s<%s> for %s' % (o, b, a) for o in ('Add', 'Sub', 'Mul', 'Div') for a in ('Symbol<f64>', '&Symbol<f64>') for b in ('Symbol<f64>', '&Symbol<f64>')] + ['Symbol<f64>::real', 'Symbol<f64>::value'] + ['%s for Symbol<f64>::%s' % x for x in (('PartialEq', 'eq'), ('Ord', 'cmp'), ('PartialOrd', 'partial_cmp'), ('Hash', 'hash'))] + ['lemma ieee_hash_equal', 'lemma ieee_order']))
PALL = ['CommutativeAssociation::new', 'CommutativeAssociation::items', 'CommutativeAssociation::get', 'CommutativeAssociation::get_one', 'CommutativeAssociation::map', 'CommutativeAssociation::get_reals', 'CommutativeAssociation::get_rational_numerators', 'CommutativeAssociation::get_rational_denominators', 'CommutativeAssociation::get_rationals', 'CommutativeAssociation::get_non_rationals', 'CommutativeAssociation::get_symbolics', 'AssociativeOperation::new', 'AssociativeOperation::argument', 'AssociativeOperation::modifier', 'Operation::new', 'Operation::argument', 'Symbol<BigInt>::integer', 'Symbol<BigInt>::value', 'Symbol<BigInt>::to_real', 'Symbol<BigInt>::label', 'Symbol<BigInt>::expr', 'Add<Symbol<BigInt>> for Symbol<BigInt>', 'Add<&Symbol<BigInt>> for Symbol<BigInt>', 'Add<&Symbol<BigInt>> for &Symbol<BigInt>', 'Add<Symbol<BigInt>> for &Symbol<BigInt>', 'Sub<Symbol<BigInt>> for Symbol<BigInt>', 'Sub<&Symbol<BigInt>> for Symbol<BigInt>', 'Sub<&Symbol<BigInt>> for &Symbol<BigInt>', 'Sub<Symbol<BigInt>> for &Symbol<BigInt>', 'Mul<Symbol<BigInt>> for Symbol<BigInt>', 'Mul<&Symbol<BigInt>> for Symbol<BigInt>', 'Mul<&Symbol<BigInt>> for &Symbol<BigInt>', 'Mul<Symbol<BigInt>> for &Symbol<BigInt>', 'Div<Symbol<BigInt>> for Symbol<BigInt>', 'Div<&Symbol<BigInt>> for Symbol<BigInt>', 'Div<&Symbol<BigInt>> for &Symbol<BigInt>', 'Div<Symbol<BigInt>> for &Symbol<BigInt>', 'Rem<Symbol<BigInt>> for Symbol<BigInt>', 'Rem<&Symbol<BigInt>> for Symbol<BigInt>', 'Rem<&Symbol<BigInt>> for &Symbol<BigInt>', 'Rem<Symbol<BigInt>> for &Symbol<BigInt>', 'Symbol<BigInt>::gcd', 'Symbol<BigInt>::lcm', 'Symbol<BigInt>::is_negative', 'Symbol<BigInt>::opposite', 'Symbol<BigInt>::pow', 'Symbol<f64>::real', 'Symbol<f64>::value', 'Symbol<f64>::label', 'Symbol<f64>::expr', 'Add<Symbol<f64>> for Symbol<f64>', 'Add<&Symbol<f64>> for Symbol<f64>', 'Add<&Symbol<f64>> for &Symbol<f64>', 'Add<Symbol<f64>> for &Symbol<f64>', 'Sub<Symbol<f64>> for Symbol<f64>', 'Sub<&Symbol<f64>> for Symbol<f64>', 'Sub<&Symbol<f64>> for &Symbol<f64>', 'Sub<Symbol<f64>> for &Symbol<f64>', 'Mul<Symbol<f64>> for Symbol<f64>', 'Mul<&Symbol<f64>> for Symbol<f64>', 'Mul<&Symbol<f64>> for &Symbol<f64>', 'Mul<Symbol<f64>> for &Symbol<f64>', 'Div<Symbol<f64>> for Symbol<f64>', 'Div<&Symbol<f64>> for Symbol<f64>', 'Div<&Symbol<f64>> for &Symbol<f64>', 'Div<Symbol<f64>> for &Symbol<f64>', 'Symbol<String>::variable', 'Symbol<String>::value', 'Symbol<String>::label', 'Symbol<String>::expr', 'Expression::expand', 'Expression::id', 'InversePowerLog::apply', 'update_addend_list', 'AdditiveCommonAddend::apply', 'MultiplicativeCommonFactor::apply', 'SingleAlgebraicDenominator::apply', 'Rational::from', 'Rational::expr', 'Add<Rational> for Rational', 'Sub<Rational> for Rational', 'Mul<Rational> for Rational', 'Div<Rational> for Rational', 'MultiplicativeDistributive::apply', 'distribute', 'PowerDistributiveAddition::apply', 'PowerDistributiveMultiplication::apply', 'Expression::addition', 'Add<Expression> for Expression', 'Add<&Expression> for Expression', 'Add<&Expression> for &Expression', 'Add<Expression> for &Expression', 'Expression::division', 'Div<Expression> for Expression', 'Div<&Expression> for Expression', 'Div<&Expression> for &Expression', 'Div<Expression> for &Expression', 'Expression::multiplication', 'Mul<Expression> for Expression', 'Mul<&Expression> for Expression', 'Mul<&Expression> for &Expression', 'Mul<Expression> for &Expression', 'Expression::subtraction', 'Sub<Expression> for Expression', 'Sub<&Expression> for Expression', 'Sub<&Expression> for &Expression', 'Sub<Expression> for &Expression', 'Neg<Expression> for Expression', 'Neg<&Expression> for &Expression', 'Expression::logarithm', 'Expression::log', 'Expression::power', 'Expression::pow']
proof('C14', 'For all operands: no unwrap of nothing, no division by zero, no index out of range, no overflow of machine integers, no reached panic!, in any compiled function of the crate. Preconditions: dividing a bare integer constant asks for a divisor other than zero (expressions never get there with zero: proved); simplification, comparison and the two rational rules ask for operands built through the public operations (in shape; that the operations keep to the shape is proved in families S, X, E and Q with C03 to C08). Not covered: exhaustion of memory or stack, lengths adding up beyond the address space, panics inside std and num other than those stated in the base.',
      ('P', PALL), ('U', ['Expression::simplify', 'Rational::from_expression', 'RationalsAddition::apply', 'RationalsMultiplication::apply'] + CMP), ('H', ['PartialEq for %s::eq' % t for t in OT + SY] + ['Ord for %s::cmp' % t for t in OT + SY] + ['PartialOrd for %s::partial_cmp' % t for t in OT + SY if t != 'Symbol<f64>'] + ['Hash for %s::hash' % t for t in OT + SY]))
AM = lambda o: ['%s<%s> for %s' % (o, a, b) for a in ('Expression', '&Expression') for b in ('Expression', '&Expression')]
proof('C11', 'For all lists of operands whose parts (sums inside a sum, products inside a product, opened up to any depth) include no real constant: the result is proved to be a function of the multiset of the parts that are not numbers and of the sum (product) of the integers among them, in the one listing that multiset has; that reordering the operands or putting some of them together first leaves both unchanged is proved of that function. That std\'s heap lists its contents in the order of their comparison is trusted; that such a listing is unique is proved.',
      ('N', ['Expression::addition', 'Expression::multiplication'] + AM('Add') + AM('Mul') + ['lemma any_order', 'lemma any_grouping']),
      ('O', ['lemma order_unique', 'CommutativeAssociation::new', 'CommutativeAssociation::items'] + ['Ord for %s::cmp' % t for t in OT + SY] + ['lemma order_' + l for l in ('ranks', 'equal_iff_same', 'equal_seq', 'flip', 'flip_seq', 'transitive', 'trans_two', 'trans_seq', 'str_eq', 'str_flip', 'str_trans')]))
C13I = ['Expression::' + x for x in ('addition', 'multiplication', 'subtraction', 'division', 'power', 'pow', 'logarithm', 'log', 'expand', 'simplify')] + AM('Add') + AM('Sub') + AM('Mul') + AM('Div') + NEG + ['MultiplicativeDistributive::apply', 'distribute', 'PowerDistributiveAddition::apply', 'PowerDistributiveMultiplication::apply', 'InversePowerLog::apply', 'SingleAlgebraicDenominator::apply', 'AdditiveCommonAddend::apply', 'update_addend_list', 'MultiplicativeCommonFactor::apply', 'RationalsAddition::apply', 'RationalsMultiplication::apply', 'Rational::expr']
proof('C13', 'For all expressions without real constants: no operation, expansion, simplification or rewriting rule gives one. For all integers: sums, differences, opposites, products and powers are proved to be the exact integer (reciprocal integer for negative exponents), quotients the fraction in lowest terms, and the arithmetic of fractions to come out exact and in lowest terms. That num\'s gcd is the greatest common divisor and that its integers are integers is trusted.',
      ('I', C13I), ('N', ['Expression::addition', 'Expression::multiplication', 'Expression::subtraction', 'Expression::division', 'Expression::power', 'Expression::pow'] + AM('Sub') + AM('Div') + NEG + ['Rational::from', 'Rational::expr'] + ['%s<Rational> for Rational' % o for o in ('Add', 'Sub', 'Mul', 'Div')] + ['lemma exact_integers']))
C12W = ['Expression::' + x for x in ('addition', 'multiplication', 'subtraction', 'division', 'power', 'pow', 'logarithm', 'log', 'expand', 'simplify')] + AM('Add') + AM('Sub') + AM('Mul') + AM('Div') + NEG + ['MultiplicativeDistributive::apply', 'distribute', 'PowerDistributiveAddition::apply', 'PowerDistributiveMultiplication::apply', 'InversePowerLog::apply', 'SingleAlgebraicDenominator::apply', 'AdditiveCommonAddend::apply', 'update_addend_list', 'MultiplicativeCommonFactor::apply', 'RationalsAddition::apply', 'RationalsMultiplication::apply', 'Rational::expr']
proof('C12', 'For all canonical operands: every constructor, operator, expansion, simplification and rewriting rule is proved to return a canonical expression (canonical: the shape invariant of contracts/can.rs, written from the statement over the whole tree). Products of constants too small or too large for a double are explored, not proved.' + REALS,
      ('W', C12W))
proof('C19', 'For all polynomials (variables, integers, sums, products, positive integer powers with exponents of the machine word), of any depth and size: the expansion is proved to be written out, no sum in it a factor, a summand or the base of a power (xp of contracts/xp.rs).' + REALS,
      ('D', ['Expression::expand', 'Expression::addition', 'Expression::multiplication', 'Expression::power', 'MultiplicativeDistributive::apply', 'distribute', 'PowerDistributiveAddition::apply']))
proof('C15', 'For all operands: every loop of the constructors and of expansion is proved to run out and every recursive call to be on something smaller, in a size of expressions (contracts/sz.rs) that never grows under a product; constants are doubles, NaN and infinities included, of which only the signs of products and of rounding are assumed. Comparisons of expressions and the standard and num libraries are taken to return.', ('T', ['Expression::addition', 'Expression::multiplication', 'Expression::power', 'Expression::pow', 'Expression::logarithm', 'Expression::division', 'Expression::subtraction', 'Expression::expand', 'MultiplicativeDistributive::apply', 'distribute', 'PowerDistributiveAddition::apply', 'PowerDistributiveMultiplication::apply', 'CommutativeAssociation::get', 'CommutativeAssociation::get_one', 'CommutativeAssociation::map']))
proof('C20', 'For every expression: what Display writes is proved to be the text of contracts/text.rs - every operand in the order of the listing, its operator between, brackets around - and nothing else; equal constants, both zeros included, have equal labels. A formatter is taken to keep what it is given and not to fail; how std and num write a number or a string is not specified, only that equal values are written alike (floats other than zeros: same value, same bits).',
      ('R', ['Display for Expression::fmt', 'Symbol<BigInt>::label', 'CommutativeAssociation::items', 'AssociativeOperation::argument', 'AssociativeOperation::modifier', 'Operation::argument']), ('K', ['Symbol<f64>::label', 'lemma ieee_text_equal']))
json.dump(cfg, open(H + '/properties_cfg.json', 'w'), indent=1)
