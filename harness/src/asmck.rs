//! Assembler and disassembler: generated programs rendered as random source text against a
//! reference encoder, erroneous sources that must be refused, byte noise against a reference walk,
//! round trips, and text noise that must not crash.
use crate::{
    fw::{Check, Stats, Violation, set_tag},
    gen_,
    rng::{Rng, hash_bytes},
};
use revm_bytecode::opcode::OPCODE_INFO;
use revm_primitives::{U256, hardfork::SpecId, hex};
use revmc::{EvmCompiler, EvmLlvmBackend, OpcodesIter, decode_pair, decode_single, encode_pair, encode_single, format_bytecode, parse_asm};
use serde_json::json;
use std::collections::HashMap;

pub struct Asm {
    c: EvmCompiler<EvmLlvmBackend>,
}

impl Asm {
    pub fn new() -> Self {
        Self { c: crate::engine::new_compiler() }
    }
}

#[derive(Clone, Debug)]
enum Val {
    Num(U256),
    Lbl(String),
}

#[derive(Clone, Debug)]
enum It {
    Label(String),
    Op(u8),
    Auto(Val),
    Fixed(u8, Val),
    Dup(u8),
    Swap(u8),
    DupN(u8),
    SwapN(u8),
    Exch(u8, u8),
}

/// EIP-8024 immediates, written from the EIP's tables rather than from the code under test.
fn ref_single(n: u8) -> Option<u8> {
    match n {
        17..=144 => Some(n - 17 + 128),
        145..=235 => Some(n - 145),
        _ => None,
    }
}
fn ref_decode_single(x: u8) -> Option<u8> {
    match x {
        0..=90 => Some(x + 145),
        128..=255 => Some(x - 128 + 17),
        _ => None,
    }
}
fn ref_decode_pair(x: u8) -> Option<(u8, u8)> {
    if (82..=127).contains(&x) {
        return None;
    }
    let k = x ^ 0x8f;
    let (q, r) = (k >> 4, k & 15);
    Some(if q < r { (q + 1, r + 1) } else { (r + 1, 29 - q) })
}

fn width(v: U256) -> usize {
    (256 - v.leading_zeros()).div_ceil(8)
}

/// Reference encoder: least layout in which every auto-sized label push is just wide enough.
fn assemble(items: &[It]) -> Option<Vec<u8>> {
    let mut widths = vec![0usize; items.len()];
    let mut pcs: HashMap<&str, usize> = HashMap::new();
    loop {
        let mut pc = 0;
        for (i, it) in items.iter().enumerate() {
            match it {
                It::Label(l) => {
                    pcs.insert(l, pc);
                }
                It::Op(_) => pc += 1,
                It::Auto(Val::Num(v)) => pc += 1 + width(*v),
                It::Auto(Val::Lbl(_)) => pc += 1 + widths[i],
                It::Fixed(n, _) => pc += 1 + *n as usize,
                It::Dup(n) | It::Swap(n) => pc += if *n <= 16 { 1 } else { 2 },
                It::DupN(_) | It::SwapN(_) | It::Exch(..) => pc += 2,
            }
        }
        let mut grew = false;
        for (i, it) in items.iter().enumerate() {
            if let It::Auto(Val::Lbl(l)) = it {
                let need = width(U256::from(*pcs.get(l.as_str())?));
                if need > widths[i] {
                    widths[i] = need;
                    grew = true;
                }
            }
        }
        if !grew {
            break;
        }
    }
    let mut out = Vec::new();
    let val = |v: &Val| match v {
        Val::Num(v) => Some(*v),
        Val::Lbl(l) => pcs.get(l.as_str()).map(|p| U256::from(*p)),
    };
    let be = |v: U256, n: usize| v.to_be_bytes::<32>()[32 - n..].to_vec();
    for (i, it) in items.iter().enumerate() {
        match it {
            It::Label(_) => {}
            It::Op(o) => out.push(*o),
            It::Auto(v) => {
                let x = val(v)?;
                let w = if matches!(v, Val::Lbl(_)) { widths[i] } else { width(x) };
                out.push(0x5f + w as u8);
                out.extend(be(x, w));
            }
            It::Fixed(n, v) => {
                let x = val(v)?;
                if width(x) > *n as usize {
                    return None;
                }
                out.push(0x5f + n);
                out.extend(be(x, *n as usize));
            }
            It::Dup(n) | It::Swap(n) => {
                let swap = matches!(it, It::Swap(_));
                match n {
                    0 => return None,
                    1..=16 => out.push(if swap { 0x8f } else { 0x7f } + n),
                    _ => out.extend([if swap { 0xe7 } else { 0xe6 }, ref_single(*n)?]),
                }
            }
            It::DupN(n) => out.extend([0xe6, ref_single(*n)?]),
            It::SwapN(n) => out.extend([0xe7, ref_single(*n)?]),
            It::Exch(n, m) => {
                out.extend([0xe8, (0..=255u8).find(|x| ref_decode_pair(*x) == Some((*n, *m)))?])
            }
        }
    }
    Some(out)
}

fn num(r: &mut Rng, v: U256) -> String {
    match r.below(5) {
        0 | 1 => format!("{v}"),
        2 => format!("0x{v:x}"),
        3 => {
            let h = format!("{v:X}");
            let pad = r.below(3).min(64 - h.len());
            format!("0x{}{h}", "0".repeat(pad))
        }
        _ => format!("0x{v:064x}"),
    }
}

fn name(r: &mut Rng, taken: &mut Vec<String>) -> String {
    loop {
        let base = *r.pick(&["a", "loop", "L", "_x", "JUMPDEST", "PUSH", "entry", "x1", "STOP", "end_of", "bb"]);
        let n = match r.below(4) {
            0 => base.to_string(),
            1 => format!("{base}_{}", r.below(10)),
            2 => format!("{base}{}", r.below(1000)),
            _ => format!("{base}{}_{}", r.below(10), r.below(10)),
        };
        if !taken.contains(&n) {
            taken.push(n.clone());
            return n;
        }
    }
}

/// The source tokens of an item.
fn toks(r: &mut Rng, it: &It) -> Vec<String> {
    let v = |r: &mut Rng, v: &Val| match v {
        Val::Num(x) => num(r, *x),
        Val::Lbl(l) => format!("%{l}"),
    };
    match it {
        It::Label(l) => vec![format!("{l}:")],
        It::Op(o) => vec![OPCODE_INFO[*o as usize].unwrap().name().to_string()],
        It::Auto(x) => vec!["PUSH".into(), v(r, x)],
        It::Fixed(n, x) => vec![format!("PUSH{n}"), v(r, x)],
        It::Dup(n) => vec!["DUP".into(), num(r, U256::from(*n))],
        It::Swap(n) => vec!["SWAP".into(), num(r, U256::from(*n))],
        It::DupN(n) => vec!["DUPN".into(), num(r, U256::from(*n))],
        It::SwapN(n) => vec!["SWAPN".into(), num(r, U256::from(*n))],
        It::Exch(n, m) => vec!["EXCHANGE".into(), num(r, U256::from(*n)), num(r, U256::from(*m))],
    }
}

fn value(r: &mut Rng) -> U256 {
    if r.chance(50) { U256::from(r.below(70000)) } else { r.word() }
}

fn gen_items(r: &mut Rng) -> Vec<It> {
    let n = match r.below(10) {
        0 => r.below(3),
        1 => r.range(200, 600),
        _ => r.range(2, 60),
    };
    let nl = r.below(1 + n / 3).min(40);
    let mut taken = Vec::new();
    let labels: Vec<String> = (0..nl).map(|_| name(r, &mut taken)).collect();
    let mut items: Vec<It> = Vec::new();
    let target = r.chance(30);
    for _ in 0..n {
        let lbl = |r: &mut Rng| if labels.is_empty() || r.chance(40) { Val::Num(value(r)) } else { Val::Lbl(r.pick(&labels).clone()) };
        items.push(match r.below(12) {
            0..=4 => loop {
                let o = r.u64() as u8;
                if OPCODE_INFO[o as usize].is_some_and(|i| i.immediate_size() == 0) {
                    break It::Op(o);
                }
            },
            5..=7 => It::Auto(lbl(r)),
            8 => {
                let x = lbl(r);
                match x {
                    Val::Lbl(_) => It::Fixed(*r.pick(&[2, 3, 4, 32, 1, 8]), x),
                    Val::Num(v) => It::Fixed(r.range(width(v).max(1), 32) as u8, Val::Num(v)),
                }
            }
            9 => { let top = if r.chance(50) { 16 } else { 235 }; It::Dup(r.range(1, top) as u8) },
            10 => { let top = if r.chance(50) { 16 } else { 235 }; It::Swap(r.range(1, top) as u8) },
            _ => match r.below(3) {
                0 => It::DupN(r.range(17, 235) as u8),
                1 => It::SwapN(r.range(17, 235) as u8),
                _ => {
                    let (n, m) = loop {
                        if let Some(p) = ref_decode_pair(r.u64() as u8) {
                            break p;
                        }
                    };
                    It::Exch(n, m)
                }
            },
        });
    }
    for l in &labels {
        let at = r.below(items.len() + 1);
        items.insert(at, It::Label(l.clone()));
    }
    // Filler that moves labels to the boundaries of the push widths.
    if target && !labels.is_empty() {
        let goal = *r.pick(&[255usize, 256, 65535, 65536, 254, 257, 65534, 65537]);
        let mut have = assemble(&items).map_or(0, |c| c.len());
        let at = r.below(items.len().max(1));
        let mut fill = Vec::new();
        while have + 33 < goal {
            fill.push(It::Fixed(32, Val::Num(r.u256())));
            have += 33;
        }
        while have < goal {
            fill.push(It::Op(0x5b));
            have += 1;
        }
        items.splice(at..at, fill);
    }
    items
}

struct Mac {
    name: String,
    params: Option<Vec<String>>,
    body: Vec<String>,
}

/// Renders tokens as source text; returns the text.
fn render(r: &mut Rng, items: &[It], stats: &mut Stats) -> String {
    let mut taken: Vec<String> = items
        .iter()
        .filter_map(|i| if let It::Label(l) = i { Some(l.clone()) } else { None })
        .collect();
    let mut words: Vec<String> = Vec::new();
    let mut defs: Vec<String> = Vec::new();
    let mut i = 0;
    let mut mname = |r: &mut Rng| loop {
        let n = name(r, &mut taken);
        if n != "PUSH" && revm_bytecode::opcode::OpCode::parse(&n).is_none() && n != "DUP" && n != "SWAP" {
            return format!("M{n}");
        }
    };
    let macros = r.chance(50);
    while i < items.len() {
        // RET_WORD, written as the builtin macro.
        if let (Some(It::Auto(Val::Num(a))), Some(It::Op(0x52))) = (items.get(i), items.get(i + 1))
            && a.is_zero()
            && let (Some(It::Fixed(1, Val::Num(b))), Some(It::Auto(Val::Num(c))), Some(It::Op(0xf3))) =
                (items.get(i + 2), items.get(i + 3), items.get(i + 4))
            && *b == U256::from(32)
            && c.is_zero()
        {
            stats.count("asm:ret_word", 1);
            words.push("RET_WORD".into());
            i += 5;
            continue;
        }
        if macros && r.chance(15) {
            let k = r.range(1, 4).min(items.len() - i);
            let chunk: Vec<Vec<String>> = items[i..i + k].iter().map(|it| toks(r, it)).collect();
            i += k;
            if r.chance(50) {
                let m = Mac { name: mname(r), params: None, body: chunk.concat() };
                stats.count("asm:object_macros", 1);
                words.push(m.name.clone());
                defs.push(define(r, &m));
            } else {
                // Turn some tokens into parameters; an argument may be several tokens.
                let np = r.below(4);
                let params: Vec<String> = (0..np).map(|k| if k == 1 { format!("p{k}") } else { format!("p{k}p") }).collect();
                let mut args: Vec<Option<Vec<String>>> = vec![None; np];
                let mut body = Vec::new();
                for t in chunk.iter().flatten() {
                    let mut done = false;
                    for (p, a) in params.iter().zip(args.iter_mut()) {
                        let same = a.as_ref().is_some_and(|a| a.len() == 1 && a[0] == *t);
                        if same || (a.is_none() && r.chance(50)) {
                            if a.is_none() {
                                *a = Some(vec![t.clone()]);
                            }
                            body.push(format!("${p}"));
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        body.push(t.clone());
                    }
                }
                let m = Mac { name: mname(r), params: Some(params), body };
                stats.count("asm:function_macros", 1);
                let pad = |r: &mut Rng| if r.chance(30) { " " } else { "" };
                let mut call = format!("{}{}(", m.name, pad(r));
                for (k, a) in args.iter().enumerate() {
                    if k > 0 {
                        call += &format!("{},{}", pad(r), pad(r));
                    }
                    call += &a.clone().unwrap_or_else(|| vec!["ADDMOD".into()]).join(" ");
                }
                call += &format!("{})", pad(r));
                words.push(call);
                defs.push(define(r, &m));
            }
            continue;
        }
        words.extend(toks(r, &items[i]));
        i += 1;
    }
    // Lay the words out in lines.
    let mut lines: Vec<String> = vec![String::new()];
    let per_line = *r.pick(&[1u32, 3, 10, 100]);
    for w in words {
        let l = lines.last_mut().unwrap();
        if !l.is_empty() {
            l.push_str(*r.pick(&[" ", "  ", "\t", " "]));
        }
        l.push_str(&w);
        if r.chance(100 / per_line) {
            if r.chance(20) {
                l.push_str(*r.pick(&[" ; note", ";", " ;; PUSH1 0x01 #define X", "  ; x: %y $z ( , \u{fc}"]));
            }
            lines.push(String::new());
            if r.chance(10) {
                lines.push(r.pick(&["", "   ", "; #define A B", "\t; whole line"]).to_string());
                lines.push(String::new());
            }
        }
    }
    for d in defs {
        let at = match r.below(3) {
            0 => 0,
            1 => lines.len(),
            _ => r.below(lines.len() + 1),
        };
        lines.insert(at, d);
    }
    let nl = if r.chance(20) { "\r\n" } else { "\n" };
    let mut s = lines.iter().map(|l| if r.chance(10) && !l.is_empty() { format!("  {l} ") } else { l.clone() }).collect::<Vec<_>>().join(nl);
    if r.chance(30) {
        s.push_str(nl);
    }
    s
}

fn define(r: &mut Rng, m: &Mac) -> String {
    let mut s = format!("#define{}{}", *r.pick(&[" ", "  ", "\t"]), m.name);
    if let Some(p) = &m.params {
        s += &format!("({})", p.join(*r.pick(&[",", ", ", " , "])));
    }
    s += " ";
    s += &m.body.join(*r.pick(&[" ", "  "]));
    if r.chance(20) {
        s += " ; body";
    }
    s
}

/// Sources that must be refused.
fn bad_source(r: &mut Rng) -> (&'static str, String) {
    let items = gen_items(r);
    let mut st = Stats::default();
    let head = if r.chance(50) { render(r, &items[..items.len().min(6)].iter().filter(|i| !matches!(i, It::Auto(Val::Lbl(_)) | It::Fixed(_, Val::Lbl(_)))).cloned().collect::<Vec<_>>(), &mut st) } else { String::new() };
    let big = |r: &mut Rng, n: usize| (U256::from(1) << (8 * n)) + U256::from(r.below(3));
    let (k, s) = match r.below(18) {
        0 => ("undefined label", format!("PUSH{} %nowhere", *r.pick(&["", "2", "32"]))),
        1 => {
            let n = r.range(1, 31);
            let v = big(r, n);
            ("immediate too large", format!("PUSH{n} {}", num(r, v)))
        }
        2 => ("number beyond 256 bits", format!("PUSH32 0x1{:064x}", r.u256())),
        3 => ("number beyond 256 bits", format!("PUSH 115792089237316195423570985008687907853269984665640564039457584007913129639936{}", r.below(10))),
        4 => ("index zero", format!("{} 0", *r.pick(&["DUP", "SWAP", "DUPN", "SWAPN"]))),
        5 => ("index too large", format!("{} {}", *r.pick(&["DUP", "SWAP", "DUPN", "SWAPN"]), *r.pick(&["236", "255", "256", "0x111", "18446744073709551617"]))),
        6 => ("index below range", format!("{} {}", *r.pick(&["DUPN", "SWAPN"]), r.range(1, 16))),
        7 => {
            let (n, m) = loop {
                let (n, m) = (r.below(40) as u8, r.below(40) as u8);
                if !(0..=255u8).any(|x| ref_decode_pair(x) == Some((n, m))) {
                    break (n, m);
                }
            };
            ("pair out of range", format!("EXCHANGE {n} {m}"))
        }
        8 => ("unexpected immediate", format!("{} {}", *r.pick(&["ADD", "STOP", "PUSH0", "DUP1", "JUMPDEST", "SSTORE"]), r.below(300))),
        9 => ("missing immediate", (*r.pick(&["PUSH", "PUSH1", "PUSH32", "DUP", "SWAPN", "EXCHANGE", "EXCHANGE 1"])).to_string()),
        10 => ("missing immediate", format!("{} ADD", *r.pick(&["PUSH", "PUSH1", "PUSH32", "DUP", "SWAPN", "EXCHANGE", "EXCHANGE 1"]))),
        11 => ("unknown mnemonic", (*r.pick(&["FOO", "add", "PUSH33", "DUP17", "SWAP0", "PUSHX", "LOG5", "_", "RET_WORD1"])).to_string()),
        12 => ("stray token", (*r.pick(&["(", ")", ",", "$x", "%x", "@", "1", "0x", "0xzz", "$", "%", ": ", "#", "\u{fc}", "#defineX Y", "+"])).to_string()),
        13 => ("wrong argument count", (*r.pick(&["#define M(a) PUSH $a\nM()\nM(1,2)", "#define M(a,b) PUSH $a PUSH $b\nM(1)", "#define M() ADD\nM(1)", "#define M() ADD\nM(,)", "#define M(a) ADD\nM(1,)"])).to_string()),
        14 => ("malformed macro", (*r.pick(&["#define", "#define 1 ADD", "#define M(a ADD\nM(1)", "#define M(a,) ADD\nM(1)", "#define M(1) ADD\nM(1)", "#define M(a b) ADD", "#define %M ADD"])).to_string()),
        15 => ("malformed call", (*r.pick(&["#define M(a) PUSH $a\nM(1", "#define M(a) PUSH $a\nM 1)", "#define M(a) PUSH $a\nM", "#define M(a) PUSH $a\nM((1)"])).to_string()),
        16 => {
            let pad = r.range(256, 300);
            ("label beyond the push width", format!("PUSH1 %far\n{}far: JUMPDEST", "STOP\n".repeat(pad)))
        }
        _ => ("unknown parameter", "#define M(a) PUSH $b\nM(1)".to_string()),
    };
    // After the good head, so that what follows cannot complete the faulty construct.
    (k, format!("{head}\n{s}"))
}

fn noise(r: &mut Rng) -> String {
    let n = r.range(0, 40);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(14) {
            0 => s.push_str("#define "),
            1 => s.push_str(*r.pick(&["M", "M(", "M(a)", "M(a,b)", "$a", "$b"])),
            2 => s.push_str(*r.pick(&["(", ")", ",", ":", ";", "%", "$", "#"])),
            3 => s.push('\n'),
            4 => s.push_str(*r.pick(&["PUSH", "PUSH1", "PUSH32", "DUP", "SWAP", "DUPN", "SWAPN", "EXCHANGE", "ADD", "RET_WORD", "JUMPDEST"])),
            5 | 6 => s.push_str(&{ let v = value(r); num(r, v) }),
            7 => s.push_str(*r.pick(&["a:", "b:", "%a", "%b", "c:", "%c", ":"])),
            8 => s.push_str(*r.pick(&["\u{a0}", "\u{2028}", "\u{fc}", "\u{1F600}", "\u{85}", "\0", "\u{feff}", "\x0b", "\x0c"])),
            9 => s.push_str(&"0123456789abcdef".repeat(r.below(8))),
            10 => s.push_str("0x"),
            11 => s.extend(r.bytes(4).iter().map(|b| (b & 0x7f) as char)),
            _ => s.push(' '),
        }
        if r.chance(60) {
            s.push(' ');
        }
    }
    s
}

fn active(op: u8, spec: SpecId) -> bool {
    // Only instructions with immediate data matter to the walk.
    !(0xe6..=0xe8).contains(&op) || spec.is_enabled_in(SpecId::AMSTERDAM)
}

impl Check for Asm {
    fn case(&mut self, index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let mut r = Rng::new(seed);
        if index < 256 {
            // Exhaustive: the immediate encodings.
            let x = index as u8;
            st.evals += 520;
            let bad = |w: &str| Err(Violation::new(format!("immediate encodings: {w}"), json!({"x": x})));
            if decode_single(x) != ref_decode_single(x) || encode_single(x) != ref_single(x) {
                return bad("single index");
            }
            if decode_pair(x) != ref_decode_pair(x) {
                return bad("decoded pair");
            }
            for m in 0..=255u8 {
                let want = (0..=255u8).find(|b| ref_decode_pair(*b) == Some((x, m)));
                if encode_pair(x, m) != want {
                    return bad("encoded pair");
                }
            }
            st.count("immediate_values", 1);
            return Ok(());
        }
        match r.below(10) {
            0..=3 => {
                let mut items = gen_items(&mut r);
                if r.chance(10) {
                    let z = || It::Auto(Val::Num(U256::ZERO));
                    let at = r.below(items.len() + 1);
                    items.splice(at..at, [z(), It::Op(0x52), It::Fixed(1, Val::Num(U256::from(32))), z(), It::Op(0xf3)]);
                }
                let src = render(&mut r, &items, st);
                set_tag("assemble");
                let want = assemble(&items);
                let got = parse_asm(&src);
                st.evals += 1;
                match (&want, &got) {
                    (Some(w), Ok(g)) if w == g => {
                        st.count("asm:ok", 1);
                        st.count("asm:labels", items.iter().filter(|i| matches!(i, It::Label(_))).count() as u64);
                        st.max("asm_bytes", w.len() as u64);
                        st.nontrivial(hash_bytes(1, src.as_bytes()));
                        st.sample(|| json!({"source": src.chars().take(300).collect::<String>(), "bytes": hex::encode(&w[..w.len().min(60)])}));
                        Ok(())
                    }
                    (None, Err(_)) => {
                        st.count("asm:refused", 1);
                        Ok(())
                    }
                    _ => Err(Violation::new(
                        match &got {
                            Ok(_) if want.is_none() => "assembled a source that must be refused".to_string(),
                            Ok(_) => "assembled to the wrong bytes".to_string(),
                            Err(e) => format!("refused a valid source: {e}"),
                        },
                        json!({"source": src, "expected": want.map(hex::encode), "got": got.ok().map(hex::encode)}),
                    )),
                }
            }
            4 => {
                let (k, src) = bad_source(&mut r);
                set_tag(k);
                st.evals += 1;
                st.count(format!("bad:{k}"), 1);
                match parse_asm(&src) {
                    Err(_) => Ok(()),
                    Ok(g) => Err(Violation::new(format!("assembled a source that must be refused ({k})"), json!({"source": src, "got": hex::encode(g)}))),
                }
            }
            5 | 6 => {
                let src = if r.chance(50) {
                    noise(&mut r)
                } else {
                    // Mutated valid source.
                    let items = gen_items(&mut r);
                    let mut b: Vec<char> = render(&mut r, &items, st).chars().take(3000).collect();
                    for _ in 0..r.range(1, 6) {
                        let i = r.below(b.len().max(1));
                        match r.below(4) {
                            0 if !b.is_empty() => drop(b.remove(i)),
                            1 => b.insert(i.min(b.len()), *r.pick(&[' ', '\n', '(', ')', ',', '0', 'x', ':', '%', '$', ';', 'A', '\u{e9}'])),
                            2 => b.truncate(i),
                            _ if !b.is_empty() => b[i] = *r.pick(&[' ', '9', 'P', '(', ':', '#']),
                            _ => {}
                        }
                    }
                    b.into_iter().collect()
                };
                set_tag("noise");
                st.evals += 1;
                st.count("noise", 1);
                if let Ok(c) = parse_asm(&src) {
                    st.count("noise:assembled", 1);
                    // What was assembled must disassemble and reassemble to itself.
                    return roundtrip(&c, SpecId::AMSTERDAM, st).map_err(|e| Violation::new(e, json!({"source": src})));
                }
                Ok(())
            }
            _ => {
                let spec = *r.pick(&gen_::SPECS);
                let code = match r.below(4) {
                    0 => { let n = r.below(200); r.bytes(n) }
                    1 => {
                        let items = gen_items(&mut r);
                        let mut c = assemble(&items).unwrap_or_default();
                        c.truncate(4000);
                        if r.chance(50) {
                            let k = r.below(c.len() + 1);
                            c.truncate(k);
                        }
                        c
                    }
                    2 => (0..r.below(60)).map(|_| *r.pick(&[0x60u8, 0x7f, 0x61, 0x5b, 0x00, 0xe6, 0xe7, 0xe8, 0x5f, 0xfe, 0x0c, 0xef])).collect(),
                    _ => { let n = r.below(20); let mut c = r.bytes(n); c.push(0x60 + r.below(32) as u8); let n = r.below(33); c.extend(r.bytes(n)); c }
                };
                set_tag("disassemble");
                walk(&code, spec, st).and_then(|_| if r.chance(30) { self.listing(&mut r, &code, spec, st) } else { Ok(()) }).and_then(|_| roundtrip(&code, spec, st)).map_err(|e| Violation::new(e, json!({"code": hex::encode(&code), "spec": format!("{spec:?}")})))
            }
        }
    }
}

impl Asm {
    /// The annotated listing of the analysed program shows, at each position it names, the
    /// instruction that is there.
    fn listing(&mut self, r: &mut Rng, code: &[u8], spec: SpecId, st: &mut Stats) -> Result<(), String> {
        crate::engine::apply(&mut self.c, &crate::engine::Cfg::random(r));
        let b = self.c.parse(code.into(), spec).map_err(|e| format!("analysis failed: {e}"))?;
        let text = format!("{b}");
        let mut last = None;
        let mut n = 0;
        for l in text.lines() {
            let Some((head, tail)) = l.split_once(';') else { continue };
            let Some(pc) = tail.split_once("pc=").and_then(|(_, p)| p.trim_start().split(' ').next()?.parse::<usize>().ok()) else { continue };
            if head.trim().is_empty() {
                continue;
            }
            let Some(&o) = code.get(pc) else { 
                // The implicit end of the code.
                if head.trim() != "STOP" {
                    return Err(format!("listing line beyond the code: {l:?}"));
                }
                continue;
            };
            if last.is_some_and(|p| p >= pc) {
                return Err(format!("listing out of order at {l:?}"));
            }
            last = Some(pc);
            n += 1;
            let mut w = head.split_whitespace();
            let name = OPCODE_INFO[o as usize].map_or_else(|| format!("UNKNOWN(0x{o:02x})"), |i| i.name().to_string());
            if w.next() != Some(&name) {
                return Err(format!("listing line {l:?}, but the code has {name} there"));
            }
            if (0x60..=0x7f).contains(&o) {
                let k = o as usize - 0x5f;
                let imm = code.get(pc + 1..pc + 1 + k).map(|b| format!("0x{}", hex::encode(b)));
                let got = w.next();
                if imm.is_some() && got != imm.as_deref() {
                    return Err(format!("listing line {l:?}, but the immediate is {imm:?}"));
                }
            }
        }
        if n == 0 && !code.is_empty() {
            return Err("the listing shows no instruction".into());
        }
        st.evals += 1;
        st.count("listing_lines", n);
        Ok(())
    }
}

/// Disassembly against a reference walk.
fn walk(code: &[u8], spec: SpecId, st: &mut Stats) -> Result<(), String> {
    let mut want: Vec<(usize, u8, Option<&[u8]>)> = Vec::new();
    let mut text = Vec::new();
    let mut pc = 0;
    while pc < code.len() {
        let o = code[pc];
        let n = match o {
            0x60..=0x7f => o as usize - 0x5f,
            0xe6..=0xe8 if active(o, spec) => 1,
            _ => 0,
        };
        let imm = if n > 0 { code.get(pc + 1..pc + 1 + n) } else { None };
        want.push((pc, o, imm));
        text.push(format!(
            "{}{}",
            OPCODE_INFO[o as usize].map_or_else(|| format!("UNKNOWN(0x{o:02x})"), |i| i.name().to_string()),
            imm.map_or(String::new(), |b| format!(" 0x{}", hex::encode(b)))
        ));
        pc += 1 + n;
    }
    st.evals += 1;
    st.count("disassembled_instructions", want.len() as u64);
    let got: Vec<_> = OpcodesIter::new(code, spec).with_pc().map(|(pc, o)| (pc, o.opcode, o.immediate)).collect();
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("disassembly differs at instruction {i}: {:?}, reference {:?}", got.get(i), want.get(i)));
    }
    let got: Vec<_> = OpcodesIter::new(code, spec).map(|o| (o.opcode, o.immediate)).collect();
    if !got.iter().zip(&want).all(|(a, b)| (b.1, b.2) == *a) || got.len() != want.len() {
        return Err("disassembly without positions differs".into());
    }
    let s = format_bytecode(code, spec);
    if s != text.join(" ") {
        return Err(format!("listing differs: {s:?}, reference {:?}", text.join(" ")));
    }
    if !code.is_empty() {
        st.nontrivial(hash_bytes(2, code));
    }
    Ok(())
}

/// Listing a complete program and assembling the listing gives the program back.
fn roundtrip(code: &[u8], spec: SpecId, st: &mut Stats) -> Result<(), String> {
    let mut pc = 0;
    while pc < code.len() {
        let o = code[pc];
        // The listing shows these with their raw immediate, which the assembler takes as an index.
        if OPCODE_INFO[o as usize].is_none() || (0xe6..=0xe8).contains(&o) {
            return Ok(());
        }
        if (0x60..=0x7f).contains(&o) {
            pc += o as usize - 0x5f;
            if pc >= code.len() {
                return Ok(());
            }
        }
        pc += 1;
    }
    st.count("round_trips", 1);
    match parse_asm(&format_bytecode(code, spec)) {
        Ok(c) if c == code => Ok(()),
        Ok(c) => Err(format!("listing reassembles to other bytes: {}", hex::encode(c))),
        Err(e) => Err(format!("listing does not reassemble: {e}")),
    }
}
