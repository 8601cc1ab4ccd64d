//! Recipes: how an expression is built through the public operations of the crate under test.
//! A recipe is printed as an s-expression (the replay format) and parsed back.
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;

pub const NAMES: [&str; 8] = ["a", "b", "c", "x", "y", "z", "aa", "B"];

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    V(usize),
    I(BigInt),
    R(f64),
    /// operation name and operands
    N(&'static str, Vec<T>),
}

pub const OPS: [&str; 36] = [
    "add", "mul", "sub", "neg", "div", "pow", "log", "expand", "simplify", "rawadd", "rawmul", "rawpow", "rawlog",
    "sin", "cos", "md", "pda", "pdm", "ipl", "sad", "aca", "mcf", "ra", "rm", "add0", "add1", "add2", "add3", "mul0",
    "mul1", "mul2", "mul3", "sub0", "div0", "negr", "list",
];
pub fn op(s: &str) -> Option<&'static str> {
    OPS.iter().chain(["sub1", "sub2", "sub3", "div1", "div2", "div3"].iter()).find(|o| **o == s).copied()
}

impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            T::V(i) => write!(f, "{}", NAMES[*i]),
            T::I(n) => write!(f, "{}", n),
            T::R(r) => write!(f, "{:?}r", r),
            T::N(o, xs) => {
                write!(f, "({}", o)?;
                for x in xs {
                    write!(f, " {}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}

pub fn parse(s: &str) -> Option<T> {
    let toks: Vec<String> =
        s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut p = 0;
    let t = parse1(&toks, &mut p)?;
    if p == toks.len() { Some(t) } else { None }
}
fn parse1(t: &[String], p: &mut usize) -> Option<T> {
    let x = t.get(*p)?;
    *p += 1;
    if x == "(" {
        let o = op(t.get(*p)?)?;
        *p += 1;
        let mut xs = vec![];
        while t.get(*p)? != ")" {
            xs.push(parse1(t, p)?);
        }
        *p += 1;
        return Some(T::N(o, xs));
    }
    if let Some(i) = NAMES.iter().position(|n| n == x) {
        return Some(T::V(i));
    }
    if let Some(r) = x.strip_suffix('r') {
        return Some(T::R(r.parse().ok()?));
    }
    Some(T::I(x.parse().ok()?))
}

impl T {
    pub fn n(o: &'static str, xs: Vec<T>) -> T {
        T::N(o, xs)
    }
    pub fn i(n: i64) -> T {
        T::I(BigInt::from(n))
    }
    pub fn size(&self) -> usize {
        match self {
            T::N(_, xs) => 1 + xs.iter().map(|x| x.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn kids(&self) -> &[T] {
        match self {
            T::N(_, xs) => xs,
            _ => &[],
        }
    }
}

pub fn int(n: &BigInt) -> Symbol<BigInt> {
    Symbol { data: n.clone() }
}

pub fn build(t: &T) -> Expression {
    match t {
        T::V(i) => Symbol::variable(NAMES[*i]).expr(),
        T::I(n) => int(n).expr(),
        T::R(r) => Symbol::real(*r).expr(),
        T::N(o, xs) => apply(o, xs.iter().map(build).collect()),
    }
}

/// one public operation applied to already built operands
pub fn apply(o: &str, mut xs: Vec<Expression>) -> Expression {
    use ncas::manipulation::expansion_rules as er;
    use ncas::manipulation::expansion_rules::rule::Rule as ERule;
    use ncas::manipulation::simplification_rules as sr;
    use ncas::manipulation::simplification_rules::rule::Rule as SRule;
    let n = xs.len();
    let mut pop = || xs.pop().unwrap();
    match o {
        "add" => Expression::addition(xs),
        "mul" => Expression::multiplication(xs),
        "rawadd" => Expression::Addition(CommutativeAssociation::new(xs)),
        "rawmul" => Expression::Multiplication(CommutativeAssociation::new(xs)),
        "neg" => -pop(),
        "negr" => -&pop(),
        "expand" => pop().expand(),
        "simplify" => pop().simplify(),
        "sin" => Expression::Sine(Operation::new(pop())),
        "cos" => Expression::Cossine(Operation::new(pop())),
        "md" => er::multiplicative_distributive::MultiplicativeDistributive::apply(&pop()),
        "pda" => er::power_distributive_addition::PowerDistributiveAddition::apply(&pop()),
        "pdm" => er::power_distributive_multiplication::PowerDistributiveMultiplication::apply(&pop()),
        "ipl" => sr::identities::inverse_power_log::InversePowerLog::apply(&pop()),
        "sad" => sr::factoring::single_algebraic_denominator::SingleAlgebraicDenominator::apply(&pop()),
        "aca" => sr::factoring::additive_common_addend::AdditiveCommonAddend::apply(&pop()),
        "mcf" => sr::factoring::multiplicative_common_factor::MultiplicativeCommonFactor::apply(&pop()),
        "ra" => sr::rational::rationals_addition::RationalsAddition::apply(&pop()),
        "rm" => sr::rational::rationals_multiplication::RationalsMultiplication::apply(&pop()),
        _ => {
            assert!(n == 2, "operation {} needs two operands", o);
            let b = pop();
            let a = pop();
            match o {
                "sub" => Expression::subtraction(a, b),
                "div" => Expression::division(a, b),
                "pow" => Expression::power(a, b),
                "log" => Expression::logarithm(a, b),
                "rawpow" => Expression::Power(AssociativeOperation::new(a, b)),
                "rawlog" => Expression::Logarithm(AssociativeOperation::new(a, b)),
                "add0" => a + b,
                "add1" => a + &b,
                "add2" => &a + b,
                "add3" => &a + &b,
                "mul0" => a * b,
                "mul1" => a * &b,
                "mul2" => &a * b,
                "mul3" => &a * &b,
                "sub0" => a - b,
                "sub1" => a - &b,
                "sub2" => &a - b,
                "sub3" => &a - &b,
                "div0" => a / b,
                "div1" => a / &b,
                "div2" => &a / b,
                "div3" => &a / &b,
                _ => panic!("unknown operation {}", o),
            }
        }
    }
}
