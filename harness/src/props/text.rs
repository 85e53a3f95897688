//! Texts, ranges and text edits against `str` and arithmetic.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::langs::{chars, floor, span};
use fall_tree::{tu, Text, TextBuf, TextEdit, TextEditBuilder, TextEditOp, TextRange, TextSuffix, TextUnit};
use std::hash::{Hash, Hasher};

fn rg(a: usize, b: usize) -> TextRange {
    TextRange::from_to(tu(a as u32), tu(b as u32))
}

// ------------------------------------------------------------------------------------ C13
#[derive(Debug, Clone)]
enum Op {
    Insert(usize, String),
    Delete(usize, usize),
    Replace(usize, usize, String),
}

fn c13(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let text = chars(g, 40);
    let n = g.range(0, 6);
    // ascending, non-overlapping operations
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| floor(&text, g.below(text.len() + 1))).collect();
    cuts.sort();
    let mut ops = Vec::new();
    for c in cuts.chunks(2) {
        ops.push(match g.below(4) {
            0 => Op::Delete(c[0], c[1]),
            1 => Op::Insert(c[0], chars(g, 4)),
            2 => Op::Replace(c[0], c[1], chars(g, 4)),
            _ => Op::Replace(c[0], c[1], String::new()),
        });
    }
    let disorder = n > 1 && g.chance(1, 12);
    if disorder {
        ops.reverse();
    }
    ctx.describe(|| format!("text {:?} operations {:?}", text, ops));
    let buf = TextBuf::from(text.as_str());
    let build = || {
        let mut b = TextEditBuilder::new(buf.as_text());
        for op in &ops {
            match op.clone() {
                Op::Insert(o, s) => b.insert(tu(o as u32), s),
                Op::Delete(a, z) => b.delete(rg(a, z)),
                Op::Replace(a, z, s) => b.replace(rg(a, z), s),
            }
        }
        b.build()
    };
    if disorder {
        // going backwards is refused (it cannot be expressed), never silently misapplied
        let mut at = 0;
        let mut backwards = false;
        for op in &ops {
            let (a, z) = match op {
                Op::Insert(o, _) => (*o, *o),
                Op::Delete(a, z) | Op::Replace(a, z, _) => (*a, *z),
            };
            if a < at {
                backwards = true;
            }
            at = at.max(z);
        }
        if backwards {
            ctx.class("out-of-order");
            ensure!(guarded(build).is_err(), "operations out of order were accepted");
            return Ok(());
        }
    }
    let edit = build();
    // the model: apply from the right
    let mut want = text.clone();
    for op in ops.iter().rev() {
        match op {
            Op::Insert(o, s) => want.insert_str(*o, s),
            Op::Delete(a, z) => want.replace_range(a..z, ""),
            Op::Replace(a, z, s) => want.replace_range(a..z, s),
        }
    }
    let mut want_naive = text.clone();
    if !disorder {
        // and once more piecewise, from the left
        want_naive.clear();
        let mut at = 0;
        for op in &ops {
            let (a, z, s) = match op {
                Op::Insert(o, s) => (*o, *o, s.as_str()),
                Op::Delete(a, z) => (*a, *z, ""),
                Op::Replace(a, z, s) => (*a, *z, s.as_str()),
            };
            want_naive.push_str(&text[at..a]);
            want_naive.push_str(s);
            at = z;
        }
        want_naive.push_str(&text[at..]);
        want = want_naive;
    }
    let got = edit.apply(buf.as_text()).to_string();
    ensure!(got == want, "applying the edit gives {:?}, expected {:?}; edit {:?}", got, want, edit.ops);
    // the pieces copied are in order and disjoint: the edit is usable for reparsing
    let mut at = 0;
    for op in &edit.ops {
        if let TextEditOp::Copy(r) = op {
            ensure!(at <= r.start().utf8_len(), "copied pieces overlap or are out of order: {:?}", edit.ops);
            at = r.end().utf8_len();
            ensure!(at <= text.len(), "copied piece outside of the text: {:?}", edit.ops);
        }
    }
    // an edit made by hand: any pieces, including repeated ones
    let m = g.range(0, 5);
    let mut hand = TextEdit { ops: vec![] };
    let mut want = String::new();
    for _ in 0..m {
        if g.bool() {
            let (a, b) = span(g, &text);
            hand.ops.push(TextEditOp::Copy(rg(a, b)));
            want.push_str(&text[a..b]);
        } else {
            let s = chars(g, 4);
            want.push_str(&s);
            hand.ops.push(TextEditOp::Insert(s.into()));
        }
    }
    let got = hand.apply(buf.as_text()).to_string();
    ensure!(got == want, "applying {:?} gives {:?}, expected {:?}", hand.ops, got, want);
    ctx.evals += 1;
    if ops.len() >= 2 && !text.is_empty() {
        ctx.nontrivial((text, format!("{:?}", ops)));
    }
    Ok(())
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "non-empty text and at least two operations; keyed by text and operations",
    run: c13,
    quick: 8_000_000,
    thorough: 320_000_000,
    tape: 160,
    threads: 0,
    exemplars: &[],
    assumptions: &["offsets lie on character boundaries"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C14
fn hash<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn c14(g: &mut Gen, ctx: &mut Ctx) -> Res {
    const WS: &[char] = &[' ', '\n', '\t', '\u{a0}', '\u{2003}', '\r', '\u{2028}', '\u{b}', '\u{85}', '\u{200b}'];
    let mut base = chars(g, 40);
    if g.bool() {
        let k = g.range(0, 4);
        let pad: String = (0..k).map(|_| *g.pick(WS)).collect();
        base = format!("{}{}{}", pad, base, pad.chars().rev().collect::<String>());
    }
    // few distinct characters, so that needles occur more than once
    if g.chance(1, 3) {
        let n = g.range(0, 20);
        base = (0..n).map(|_| *g.pick(&['a', 'b', '\u{e9}'])).collect();
    }
    let buf = TextBuf::from(base.as_str());
    let (a, b) = {
        let x = floor(&base, g.below(base.len() + 1));
        let y = floor(&base, g.below(base.len() + 1));
        (x.min(y), x.max(y))
    };
    let (s, t) = (&base[a..b], buf.as_text().slice(rg(a, b)));
    let needle = match g.below(3) {
        0 => chars(g, 3),
        1 => {
            let (x, y) = span(g, s);
            s[x..y].to_string()
        }
        _ => g.pick(&["", "a", "ab", "\u{e9}", "aa"]).to_string(),
    };
    ctx.describe(|| format!("text {:?} view {}..{} needle {:?}", base, a, b, needle));
    let n = needle.as_str();
    macro_rules! same {
        ($what:expr, $x:expr, $y:expr) => {
            match ($x, $y) { (x, y) => { ensure!(x == y, "{} of {:?} (needle {:?}): {:?}, expected {:?}", $what, s, n, x, y); } }
        };
    }
    same!("to_string", t.to_string().as_str(), s);
    same!("to_cow", t.to_cow().as_ref(), s);
    same!("to_text_buf", t.to_text_buf().as_text().to_string().as_str(), s);
    same!("len", t.len().utf8_len(), s.len());
    same!("is_empty", t.is_empty(), s.is_empty());
    same!("chars", t.chars().collect::<String>().as_str(), s);
    same!("starts_with", t.starts_with(n), s.starts_with(n));
    same!("ends_with", t.ends_with(n), s.ends_with(n));
    same!("contains", t.contains(n), s.contains(n));
    same!("find", t.find(n).map(|o| o.utf8_len()), s.find(n));
    same!("rfind", t.rfind(n).map(|o| o.utf8_len()), s.rfind(n));
    same!("trim", t.trim().to_string().as_str(), s.trim());
    same!("display", format!("{}", t).as_str(), s);
    same!("debug", format!("{:?}", t), format!("{:?}", s));
    same!("json", serde_json::to_string(&t).unwrap(), serde_json::to_string(s).unwrap());
    same!("equal", t == n, s == n);
    same!("equal (other side)", n == t, s == n);
    same!("buffer equal", TextBuf::from(t) == n, s == n);
    same!("buffer equal (other side)", n == TextBuf::from(t), s == n);
    let nb = TextBuf::from(n);
    let nt: Text = nb.as_text();
    same!("text equal", t == nt, s == n);
    same!("text order", t.partial_cmp(&nt), s.partial_cmp(n));
    same!("text total order", t.cmp(&nt), s.cmp(n));
    same!("str order", t.partial_cmp(&n), s.partial_cmp(n));
    same!("hash", hash(t) == hash(nt), s == n);
    // views of views
    let (x, y) = span(g, s);
    let u = t.slice(rg(x, y));
    same!("slice", u.to_string().as_str(), &s[x..y]);
    same!("suffix", t.slice(TextSuffix::from(tu(x as u32))).to_string().as_str(), &s[x..]);
    same!("suffix of slice", u.slice(TextSuffix::from(tu(0))).to_string().as_str(), &s[x..y]);
    let tr = t.trim();
    let (p, q) = span(g, s.trim());
    same!("slice of trim", tr.slice(rg(p, q)).to_string().as_str(), &s.trim()[p..q]);
    // outside of the view is refused, even when the buffer goes on
    if b < base.len() {
        ctx.class("view-ends-early");
        ensure!(guarded(|| t.slice(rg(0, s.len() + 1)).len()).is_err(), "slicing beyond the end of a view was accepted");
        ensure!(guarded(|| t.slice(TextSuffix::from(tu(s.len() as u32 + 1))).len()).is_err(), "a suffix starting beyond the end of a view was accepted");
    }
    if s.len() >= 3 {
        ctx.nontrivial((base, a, b, needle));
    }
    Ok(())
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "the view is at least three bytes long; keyed by buffer, view and needle",
    run: c14,
    quick: 5_000_000,
    thorough: 200_000_000,
    tape: 120,
    threads: 0,
    exemplars: &[],
    assumptions: &["offsets lie on character boundaries"],
    min_nontrivial_pct: 30,
};

// ------------------------------------------------------------------------------------ C15
fn c15(g: &mut Gen, ctx: &mut Ctx) -> Res {
    let max = *g.pick(&[6usize, 12, 1000, 2_000_000_000]);
    let mut pair = |g: &mut Gen| {
        let x = g.below(max);
        let y = g.below(max);
        (x.min(y), x.max(y))
    };
    let (a, b) = (pair(g), pair(g));
    let o = g.below(max);
    ctx.describe(|| format!("ranges {:?} {:?} offset {}", a, b, o));
    let (ra, rb) = (rg(a.0, a.1), rg(b.0, b.1));
    let off = tu(o as u32);
    macro_rules! same {
        ($what:expr, $x:expr, $y:expr) => {
            match ($x, $y) { (x, y) => { ensure!(x == y, "{} of {:?} and {:?} (offset {}): {:?}, expected {:?}", $what, a, b, o, x, y); } }
        };
    }
    same!("start", ra.start().utf8_len(), a.0);
    same!("end", ra.end().utf8_len(), a.1);
    same!("len", ra.len().utf8_len(), a.1 - a.0);
    same!("is_empty", ra.is_empty(), a.0 == a.1);
    same!("from_len", TextRange::from_len(tu(a.0 as u32), tu((a.1 - a.0) as u32)), ra);
    same!("equality", ra == rb, a == b);
    same!("display", format!("{}", ra), format!("[{}; {})", a.0, a.1));
    same!("json", serde_json::to_string(&ra).unwrap(), format!("[{},{}]", a.0, a.1));
    same!("json round trip", serde_json::from_str::<TextRange>(&serde_json::to_string(&ra).unwrap()).unwrap(), ra);
    same!("unit json", serde_json::from_str::<TextUnit>(&serde_json::to_string(&off).unwrap()).unwrap(), off);
    same!("contains_offset_nonstrict", ra.contains_offset_nonstrict(off), a.0 <= o && o <= a.1);
    same!("is_subrange_of", ra.is_subrange_of(rb), b.0 <= a.0 && a.1 <= b.1);
    same!("shift_right", ra.shift_right(off), rg(a.0 + o, a.1 + o));
    same!("unit sum", (tu(a.0 as u32) + tu(o as u32)).utf8_len(), a.0 + o);
    same!("unit difference", (ra.end() - ra.start()).utf8_len(), a.1 - a.0);
    same!("units in total", [ra.start(), off].iter().cloned().sum::<TextUnit>().utf8_len(), a.0 + o);
    same!("unit order", ra.start().cmp(&off), a.0.cmp(&o));
    let mut acc = ra.start();
    acc += off;
    acc -= ra.start();
    same!("accumulate", acc, off);
    if a.0 < a.1 && b.0 < b.1 {
        let share = a.0.max(b.0) < a.1.min(b.1);
        same!("intersects", ra.intersects(rb), share);
        same!("disjoint", ra.disjoint(rb), !share);
        let ord = if a.1 <= b.0 {
            Some(std::cmp::Ordering::Less)
        } else if b.1 <= a.0 {
            Some(std::cmp::Ordering::Greater)
        } else if a == b {
            Some(std::cmp::Ordering::Equal)
        } else {
            None
        };
        same!("order", ra.partial_cmp(&rb), ord);
        if share && a != b {
            ctx.class("overlap");
        }
        ctx.nontrivial((a, b));
    }
    same!("intersects is symmetric", ra.intersects(rb), rb.intersects(ra));
    same!("disjoint is symmetric", ra.disjoint(rb), rb.disjoint(ra));
    let rc = rg(a.1, a.1 + o);
    same!("glue", ra.glue(rc), rg(a.0, a.1 + o));
    if b.0 != a.1 {
        ensure!(guarded(|| ra.glue(rb)).is_err(), "glued ranges that do not touch: {:?} {:?}", a, b);
    }
    if a.0 < a.1 {
        ensure!(guarded(|| rg(a.1, a.0)).is_err(), "a range ending before it starts was accepted");
    }
    // indexing a string by a range
    let s = "h\u{e9}llo w\u{f6}rld \u{4e2d}";
    let (x, y) = span(g, s);
    same!("str index", &s[rg(x, y)], &s[x..y]);
    same!("string index", &s.to_string()[rg(x, y)], &s[x..y]);
    Ok(())
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "both ranges are non-empty; keyed by the two ranges",
    run: c15,
    quick: 6_000_000,
    thorough: 240_000_000,
    tape: 16,
    threads: 0,
    exemplars: &[],
    assumptions: &["sums stay below 4 GiB"],
    min_nontrivial_pct: 30,
};
