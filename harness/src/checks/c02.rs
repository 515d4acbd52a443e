//! C02: expressions: precedence, associativity, grouping, evaluation order, short circuit
use super::*;
use crate::engine::Ch;
use crate::model::ast::*;

pub const META: Meta = Meta { id: "C02", run, assumptions: &[
    "expressions have at most 4 operator nodes (3 for complete enumeration of all operators)",
    "operand values are drawn from the listed operand vectors",
] };

#[derive(Clone, Copy, PartialEq)]
enum O { B(BinOp), And, Or }

fn ops() -> Vec<O> {
    let mut v: Vec<O> = ARITH.iter().chain(CMP.iter()).map(|o| O::B(*o)).collect();
    v.push(O::B(BinOp::Dot));
    v.push(O::And);
    v.push(O::Or);
    v
}
/// one representative per precedence level (and both associativity-relevant members where the level has several)
fn few() -> Vec<O> {
    use BinOp::*;
    vec![O::B(Mul), O::B(Mod), O::B(Pow), O::B(Add), O::B(Sub), O::B(Shl), O::B(And), O::B(Dot), O::B(Lt), O::B(Eq), O::And, O::Or]
}

fn mk(o: O, a: Expr, b: Expr) -> Expr {
    match o {
        O::B(BinOp::Dot) => compose(a, b),
        O::B(o) => bin(o, a, b),
        O::And => Expr::And(Box::new(a), Box::new(b)),
        O::Or => Expr::Or(Box::new(a), Box::new(b)),
    }
}

fn leaves() -> Vec<Vec<Expr>> {
    let set = |v: &[i64]| Expr::Set(args(v.iter().map(|i| int(*i)).collect()));
    vec![
        vec![int(2), int(3), int(5), int(7), int(1)],
        vec![int(9), int(-2), int(0), int(4), int(3)],
        vec![st("a%db"), int(3), st("c"), int(2), st("x")],
        vec![set(&[1, 2, 3]), set(&[2, 3]), set(&[3, 4]), set(&[1]), set(&[])],
        vec![list(vec![int(1), int(2)]), int(2), list(vec![int(1)]), list(vec![int(3)]), int(1)],
        vec![int(-7), var("abs"), var("int"), Expr::OpRight(BinOp::Add, Box::new(int(1))), var("str")],
        vec![Expr::Bool(true), Expr::Nil, int(1), Expr::Bool(false), int(0)],
        vec![vector(vec![int(1), int(2)]), int(3), vector(vec![int(4), int(5)]), int(2), vector(vec![int(0), int(7)])],
    ]
}

/// Binary tree shapes with `n` internal nodes; consumes operators and leaves in left-to-right order
fn tree(ch: &mut Ch, n: usize, o: &[O], f: &mut dyn FnMut() -> Expr) -> Expr {
    if n == 0 { return f(); }
    let l = ch.pick(n);
    let a = tree(ch, l, o, f);
    let op = *ch.of(o);
    let b = tree(ch, n - 1 - l, o, f);
    mk(op, a, b)
}

/// `t(i, v)`: records that operand i was evaluated
fn traced(i: usize, e: Expr) -> Expr { calln("t", vec![int(i as i64), e]) }
fn prelude() -> Vec<Stmt> { vec![fnexpr_block("t", &["i", "v"], vec![print(vec![st("eval"), var("i")]), Stmt::Expr(var("v"))])] }
fn fnexpr_block(n: &str, p: &[&str], b: Vec<Stmt>) -> Stmt { func(n, reqs(p), b) }

fn with_prelude(mut v: Vec<Stmt>) -> Vec<Stmt> { let mut p = prelude(); p.append(&mut v); p }

fn run(cx: &mut Cx) {
    let all = ops();
    let lv = leaves();
    let pr = Printer::new();

    // 1. every pair of operators, both groupings, all operand vectors, printed with minimal parentheses
    cx.explore("all trees of 2 operators x operand vectors", |ch| {
        let l = ch.of(&lv).clone();
        let mut k = 0;
        let e = tree(ch, 2, &all, &mut || { k += 1; l[k - 1].clone() });
        Some(vec![print(vec![Expr::Call(Box::new(var("repr")), vec![arg(e)], Style::Paren)])])
    }, |cx, p| conform(cx, &p, pr, false, "value of an expression"));

    // 2. triples
    let tri = all.clone();
    let vecs: Vec<Vec<Expr>> = lv.clone();
    cx.explore("all trees of 3 operators", |ch| {
        let l = ch.of(&vecs).clone();
        let mut k = 0;
        let e = tree(ch, 3, &tri, &mut || { k += 1; l[k - 1].clone() });
        Some(vec![print(vec![calln("repr", vec![e])])])
    }, |cx, p| conform(cx, &p, pr, false, "value of an expression"));

    {
        let f = few();
        let n = cx.tier.pick(2, vecs.len());
        cx.explore("trees of 4 operators, one or two per level", |ch| {
            let l = ch.of(&vecs[..n]).clone();
            let mut k = 0;
            let e = tree(ch, 4, &f, &mut || { k += 1; l[k - 1].clone() });
            Some(vec![print(vec![calln("repr", vec![e])])])
        }, |cx, p| conform(cx, &p, pr, false, "value of an expression"));
    }

    // 3. evaluation order: the same trees with operands that announce their evaluation
    let cx_thorough = cx.thorough();
    cx.explore("evaluation order: trees of operators", |ch| {
        let n = 2 + ch.pick(2);
        let l = ch.of(if n == 2 || cx_thorough { &lv[..] } else { &lv[..2] }).clone();
        let mut k = 0;
        let e = tree(ch, n, &all, &mut || { k += 1; traced(k, l[k - 1].clone()) });
        Some(with_prelude(vec![print(vec![calln("repr", vec![e])])]))
    }, |cx, p| conform(cx, &p, pr, false, "evaluation order"));

    // 4. unary operators against suffixes and binary operators
    let un_ops = [UnOp::Neg, UnOp::Not, UnOp::LNot];
    let depth = cx.tier.pick(3, 4);
    fn uexpr(ch: &mut Ch, d: usize, lv: &[Expr], un_ops: &[UnOp], root: bool) -> Expr {
        if d == 0 { return ch.of(lv).clone(); }
        match ch.pick(if root { 7 } else { 8 }) {
            0 => un(*ch.of(un_ops), uexpr(ch, d - 1, lv, un_ops, false)),
            1 => index(uexpr(ch, d - 1, lv, un_ops, false), int(1)),
            2 => call(uexpr(ch, d - 1, lv, un_ops, false), vec![int(5)]),
            3 => { let o = *ch.of(&[BinOp::Mul, BinOp::Sub, BinOp::Pow, BinOp::Is]); bin(o, uexpr(ch, d - 1, lv, un_ops, false), int(3)) }
            4 => { let o = *ch.of(&[BinOp::Mul, BinOp::Sub, BinOp::Pow, BinOp::Eq]); bin(o, int(3), uexpr(ch, d - 1, lv, un_ops, false)) }
            5 => Expr::Call(Box::new(uexpr(ch, d - 1, lv, un_ops, false)), vec![arg(st("ab"))], Style::Bare),
            6 => Expr::Slice(Box::new(uexpr(ch, d - 1, lv, un_ops, false)), [None, Some(Box::new(int(1))), None]),
            _ => ch.of(lv).clone(),
        }
    }
    let ul = [int(2), vector(vec![int(4), int(6)]), var("len"), Expr::Bool(false)];
    cx.explore("prefix and suffix operators", |ch| {
        let e = uexpr(ch, depth, &ul, &un_ops, true);
        Some(vec![print(vec![calln("repr", vec![e])])])
    }, |cx, p| conform(cx, &p, pr, false, "prefix/suffix expression"));

    // 5. if-then-else, lambdas and assignments nested in operators
    fn low(ch: &mut Ch, d: usize, k: &mut i64) -> Expr {
        if d == 0 { *k += 1; return match ch.pick(3) { 0 => int(*k), 1 => Expr::Bool(false), _ => var("x") }; }
        match ch.pick(8) {
            0 => { let c = low(ch, d - 1, k); iff(c, int(11), int(12)) }
            1 => { let c = low(ch, d - 1, k); iff(Expr::Bool(true), c, int(12)) }
            2 => { let c = low(ch, d - 1, k); iff(Expr::Bool(false), int(12), c) }
            3 => { let o = *ch.of(&[O::B(BinOp::Add), O::B(BinOp::Lt), O::And, O::Or]); let a = low(ch, d - 1, k); mk(o, a, int(20)) }
            4 => { let o = *ch.of(&[O::B(BinOp::Add), O::B(BinOp::Lt), O::And, O::Or]); let a = low(ch, d - 1, k); mk(o, int(20), a) }
            5 => { let a = low(ch, d - 1, k); assign("x", a) }
            6 => { let o = *ch.of(&[BinOp::Add, BinOp::Sub, BinOp::Mul]); let a = low(ch, d - 1, k); opassign(o, "y", a) }
            _ => { let a = low(ch, d - 1, k); call(lambda(reqs(&["z"]), a), vec![int(3)]) }
        }
    }
    let ld = cx.tier.pick(3, 4);
    cx.explore("conditional, lambda and assignment expressions", |ch| {
        let mut k = 0;
        let e = low(ch, ld, &mut k);
        Some(vec![letv("x", int(1)), letv("y", int(100)), Stmt::Expr(assign("x", e)), print(vec![var("x"), var("y")])])
    }, |cx, p| conform(cx, &p, pr, false, "conditional/assignment expression"));

    // 6. comparison chains: every operator sequence up to length 3 (4), every value assignment over {1, 2, 3}
    let n = cx.tier.pick(3, 4);
    cx.explore("comparison chains", |ch| {
        let len = 1 + ch.pick(n);
        let vals = if len < 4 { 3 } else { 2 };
        let a = traced(0, int(1 + ch.pick(vals) as i64));
        let v: Vec<(BinOp, Expr)> = (0..len).map(|i| (*ch.of(&CMP), traced(i + 1, int(1 + ch.pick(vals) as i64)))).collect();
        Some(with_prelude(vec![print(vec![Expr::Cmp(Box::new(a), v)])]))
    }, |cx, p| conform(cx, &p, pr, false, "comparison chain"));

    // 7. short circuit results and side effects: and / or over all value kinds
    let vals = [Expr::Nil, Expr::Bool(false), Expr::Bool(true), int(0), int(1), st(""), st("a"), list(vec![]), list(vec![int(0)]), Expr::Set(vec![]), Expr::Dict(vec![]), vector(vec![]), calln("range", vec![int(0)]), calln("range", vec![int(1)]), var("print"), Expr::Imag(1), calln("rational", vec![int(1)])];
    cx.explore("and / or / not / if over truthiness", |ch| {
        let (a, b, c) = (ch.of(&vals).clone(), ch.of(&vals).clone(), if ch.flag() { int(7) } else { Expr::Nil });
        let (x, y, z) = (traced(1, a), traced(2, b), traced(3, c));
        let e = match ch.pick(6) {
            0 => mk(O::And, mk(O::And, x, y), z),
            1 => mk(O::Or, mk(O::Or, x, y), z),
            2 => mk(O::Or, mk(O::And, x, y), z),
            3 => mk(O::And, x, mk(O::Or, y, z)),
            4 => iff(x, y, z),
            _ => iff(un(UnOp::LNot, x), y, z),
        };
        Some(with_prelude(vec![print(vec![calln("repr", vec![e])])]))
    }, |cx, p| conform(cx, &p, pr, false, "short circuit"));

    // 8. evaluation order inside every composite expression
    cx.explore("evaluation order of composite expressions", |ch| {
        let t = |i: usize, e: Expr| traced(i, e);
        let l3 = || list(vec![int(1), int(2), int(3)]);
        let un1 = ch.flag();
        let k = ch.pick(22);
        let a = |i: usize, v: Expr| arg(t(i, v));
        let e = match k {
            0 => Expr::List(vec![a(1, int(1)), if un1 { unroll(t(2, l3())) } else { a(2, int(2)) }, a(3, int(3))]),
            1 => Expr::Vector(vec![a(1, int(1)), if un1 { unroll(t(2, l3())) } else { a(2, int(2)) }, a(3, int(3))]),
            2 => Expr::Set(vec![a(1, int(1)), if un1 { unroll(t(2, l3())) } else { a(2, int(2)) }, a(3, int(3))]),
            3 => Expr::Dict(vec![(t(1, int(1)), Some(t(2, int(2)))), (t(3, int(1)), Some(t(4, int(5))))]),
            4 => Expr::Call(Box::new(t(1, var("list"))), vec![a(2, int(1)), if un1 { unroll(t(3, l3())) } else { a(3, int(2)) }, a(4, int(3))], Style::Paren),
            5 => index(t(1, l3()), t(2, int(1))),
            6 => Expr::Slice(Box::new(t(1, l3())), [Some(Box::new(t(2, int(0)))), Some(Box::new(t(3, int(3)))), Some(Box::new(t(4, int(2))))]),
            7 => compose(t(1, l3()), t(2, var("len"))),
            8 => compose(t(1, l3()), call(t(2, var("map")), vec![t(3, var("str"))])),
            9 => assign_to(index(t(1, var("g")), t(2, int(0))), t(3, int(9))),
            10 => Expr::OpAssign(*ch.of(&[BinOp::Add, BinOp::Max, BinOp::Shl]), Box::new(index(t(1, var("g")), t(2, int(0)))), Box::new(t(3, int(9)))),
            11 => assign("x", t(1, assign("x", t(2, int(2))))),
            12 => opassign(BinOp::Add, "x", t(1, assign("x", int(50)))),
            13 => assign_to(index(t(1, var("g")), t(2, assign("x", int(1)))), t(3, assign("x", int(2)))),
            14 => Expr::OpRight(BinOp::Sub, Box::new(t(1, int(3)))),
            15 => call(Expr::OpRight(*ch.of(&[BinOp::Lt, BinOp::Pow, BinOp::Mod]), Box::new(t(1, int(3)))), vec![t(2, int(4))]),
            16 => call(Expr::OpLeft(Box::new(t(1, int(3))), *ch.of(&[BinOp::Lt, BinOp::Pow, BinOp::Mod])), vec![t(2, int(4))]),
            17 => Expr::PatAssign(vec![Pat::Target(index(t(1, var("g")), t(2, int(0)))), Pat::Target(index(t(3, var("g")), t(4, int(1))))], Box::new(vector(vec![t(5, int(7)), t(6, int(8))]))),
            18 => call(lambda(reqs(&["p", "q"]), bin(BinOp::Add, var("q"), var("p"))), vec![t(1, int(1)), t(2, int(2))]),
            19 => calln("map", vec![lambda(reqs(&["p"]), t(1, var("p"))), l3()]),
            20 => Expr::Cmp(Box::new(t(1, int(3))), vec![(BinOp::Lt, t(2, int(2))), (BinOp::Lt, t(3, int(1)))]),
            _ => call(call(t(1, var("map")), vec![t(2, var("str"))]), vec![t(3, l3())]),
        };
        if k == 14 { return None; }
        let e = if k == 17 { Stmt::Expr(e) } else { print(vec![calln("repr", vec![e])]) };
        Some(with_prelude(vec![letv("g", list(vec![int(4), int(5), int(6)])), letv("x", int(1)), e, print(vec![var("g"), var("x")])]))
    }, |cx, p| conform(cx, &p, pr, false, "evaluation order"));
}
