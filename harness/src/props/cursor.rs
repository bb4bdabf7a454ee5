//! Cursors (Reader, Writer) and the transcript store, driven by arbitrary operation sequences and
//! compared with plain bit- and byte-level references.

use crate::ctx::Ctx;
use crate::rng::{hash_bytes, mix, Rng};
use crate::util::*;
use spdm::msgs::encoding::{Reader, Writer};
use spdm::Transcript;

const T: &[&str] = &["C26"];
const S: &[&str] = &["C27"];

struct RefReader {
    buf: Vec<u8>,
    pos: usize, // in bits
}

impl RefReader {
    fn bits(&self, n: usize) -> u8 {
        (0..n).fold(0, |a, i| {
            let p = self.pos + i;
            a | (((self.buf[p / 8] >> (p % 8)) & 1) << i)
        })
    }
    fn left(&self) -> usize {
        self.buf.len() * 8 - self.pos
    }
    fn aligned(&self) -> bool {
        self.pos % 8 == 0
    }
    fn le(&self, n: usize) -> u64 {
        (0..n).fold(0, |a, i| a | u64::from(self.buf[self.pos / 8 + i]) << (8 * i))
    }
}

/// What an operation did, in a form that both sides can produce.
#[derive(Clone, Debug, PartialEq)]
enum Out {
    V(u64),
    Bytes(Vec<u8>),
    Fail,
}

fn state(cx: &mut Ctx, rd: &Reader, rf: &RefReader, what: &str) -> bool {
    let (o, rem, emp, al) = match cx.armed("Reader accessors", || {
        (rd.byte_offset(), rd.remaining(), rd.is_empty(), rd.is_aligned())
    }) {
        Some(v) => v,
        None => return false,
    };
    let ok = o == rf.pos / 8
        && rem == rf.buf.len() - rf.pos / 8
        && emp == (rf.pos / 8 == rf.buf.len())
        && al == rf.aligned();
    cx.check(T, ok, || {
        format!(
            "after {what}: byte_offset {o}, remaining {rem}, is_empty {emp}, is_aligned {al}; the position is bit {} of {}",
            rf.pos,
            rf.buf.len() * 8
        )
    })
}

pub fn reader(cx: &mut Ctx, r: &mut Rng) {
    // now and then more than 16 bits can count
    let big = cx.case % 400 == 77;
    let n = if big { 65530 + r.below(300) } else { r.len_near(&[0, 1, 2, 3, 4, 8], 40) };
    if big {
        cx.count("reader.beyond_16_bits");
    }
    let span = |r: &mut Rng, pos: usize, left: usize| {
        if big && r.chance(1, 2) {
            (65536 - 3 + r.below(4)).saturating_sub(pos)
        } else if r.chance(1, 3) {
            r.len_near(&[left], left + 300)
        } else {
            r.below(5)
        }
    };
    let mut buf = r.bytes(n);
    if r.chance(1, 3) {
        // many reserved bytes
        if big {
            buf.fill(0);
        }
        for b in buf.iter_mut() {
            if r.chance(2, 3) {
                *b = 0;
            }
        }
    }
    cx.ev("reader over", &buf);
    let backing = buf.clone();
    let mut rd = Reader::new(&backing);
    let mut rf = RefReader { buf, pos: 0 };
    let bitty = r.chance(1, 2);
    if !state(cx, &rd, &rf, "new") {
        return;
    }
    for _ in 0..r.range(1, 40) {
        let op = if bitty && r.chance(2, 3) { r.below(2) } else { r.below(10) };
        let before = rf.pos;
        // (what was seen, what is required, bits consumed when accepted, may a failure consume part)
        let (what, got, want, used, partial): (String, Option<Out>, Out, usize, usize) = match op {
            0 => {
                let c = match r.below(8) {
                    0 => *r.pick(&[8u8, 9, 15, 16, 128, 254, 255]),
                    _ => r.range(1, 7) as u8,
                };
                let ok = c <= 7 && rf.left() >= usize::from(c);
                let w = if ok { Out::V(u64::from(rf.bits(usize::from(c)))) } else { Out::Fail };
                let g = cx.armed("get_bits", || rd.get_bits(c).map_or(Out::Fail, |v| Out::V(v.into())));
                (format!("get_bits({c})"), g, w, usize::from(c), 0)
            }
            1 => {
                let w = if rf.left() >= 1 { Out::V(u64::from(rf.bits(1))) } else { Out::Fail };
                let g = cx.armed("get_bit", || rd.get_bit().map_or(Out::Fail, |v| Out::V(v.into())));
                ("get_bit".into(), g, w, 1, 0)
            }
            2 => {
                let w = if rf.aligned() && rf.left() >= 8 { Out::V(rf.le(1)) } else { Out::Fail };
                let g = cx.armed("get_byte", || rd.get_byte().map_or(Out::Fail, |v| Out::V(v.into())));
                ("get_byte".into(), g, w, 8, 0)
            }
            3 => {
                let w = if rf.aligned() && rf.left() >= 16 { Out::V(rf.le(2)) } else { Out::Fail };
                let g = cx.armed("get_u16", || rd.get_u16().map_or(Out::Fail, |v| Out::V(v.into())));
                ("get_u16".into(), g, w, 16, 0)
            }
            4 => {
                let w = if rf.aligned() && rf.left() >= 24 { Out::V(rf.le(3)) } else { Out::Fail };
                let g = cx.armed("get_u24", || rd.get_u24().map_or(Out::Fail, |v| Out::V(v as u64)));
                ("get_u24".into(), g, w, 24, 3)
            }
            5 => {
                let w = if rf.aligned() && rf.left() >= 32 { Out::V(rf.le(4)) } else { Out::Fail };
                let g = cx.armed("get_u32", || rd.get_u32().map_or(Out::Fail, |v| Out::V(v.into())));
                ("get_u32".into(), g, w, 32, 0)
            }
            6 | 7 => {
                let left = rf.left() / 8;
                let k = span(r, rf.pos / 8, left);
                let extra = r.below(4);
                let fill = r.byte();
                let mut out = vec![fill; k + extra];
                let ok = rf.aligned() && left >= k;
                let mut exp = vec![fill; k + extra];
                if ok {
                    exp[..k].copy_from_slice(&rf.buf[rf.pos / 8..rf.pos / 8 + k]);
                }
                let g = cx.armed("get_slice", || rd.get_slice(k, &mut out).is_ok());
                let g = g.map(|x| if x { Out::Bytes(out.clone()) } else { Out::Fail });
                if g == Some(Out::Fail) && out != exp {
                    cx.fail(T, format!("a failing get_slice({k}) wrote into the destination"));
                }
                (format!("get_slice({k})"), g, if ok { Out::Bytes(exp) } else { Out::Fail }, 8 * k, 0)
            }
            8 => {
                let left = rf.left() / 8;
                let k = span(r, rf.pos / 8, left);
                let here = rf.pos / 8;
                let ok = k == 0 || rf.aligned() && left >= k && rf.buf[here..here + k].iter().all(|b| *b == 0);
                let g = cx.armed("skip_reserved", || rd.skip_reserved(k).map_or(Out::Fail, |_| Out::V(0)));
                (format!("skip_reserved({k})"), g, if ok { Out::V(0) } else { Out::Fail }, 8 * k, k)
            }
            _ => {
                let left = rf.left() / 8;
                let k = span(r, rf.pos / 8, left);
                let ok = k == 0 || rf.aligned() && left >= k;
                let g = cx.armed("skip_ignored", || rd.skip_ignored(k).map_or(Out::Fail, |_| Out::V(0)));
                (format!("skip_ignored({k})"), g, if ok { Out::V(0) } else { Out::Fail }, 8 * k, k)
            }
        };
        let got = match got {
            Some(g) => g,
            None => return,
        };
        cx.ev(format!("{what} at bit {before} -> {got:?}"), &[]);
        if !cx.check(T, got == want, || {
            format!("{what} at bit {before} of {} returned {got:?}, the input has {want:?}", rf.buf.len() * 8)
        }) {
            return;
        }
        let name = what.split('(').next().unwrap();
        cx.count(&format!("reader.{name}.{}", if got == Out::Fail { "err" } else { "ok" }));
        cx.distinct(mix(hash_bytes(what.as_bytes()) ^ (before % 8) as u64 ^ ((rf.left().min(64) as u64) << 8)));
        if got != Out::Fail {
            rf.pos += used;
            if before % 8 != 0 && before / 8 != (rf.pos - 1) / 8 {
                cx.count("reader.crossing");
            }
        } else if partial > 0 && rf.aligned() {
            // a failed multi-byte read may have consumed a part, but never goes past the end
            let o = rd.byte_offset();
            let b = before / 8;
            let fit = o >= b && o <= rf.buf.len() && o <= b + partial;
            if !cx.check(T, fit, || format!("a failing {what} moved the cursor from {b} to {o} of {}", rf.buf.len())) {
                return;
            }
            rf.pos = o * 8;
        }
        if !state(cx, &rd, &rf, &what) {
            return;
        }
    }
}

/// Every two-byte input, every starting bit and every count.
pub fn bits_all(cx: &mut Ctx, _: &mut Rng) {
    let v = (cx.case % 65536) as u16;
    let buf = v.to_le_bytes();
    for off in 0..16u32 {
        for count in 1..8u32 {
            let got = cx.armed("get_bits", || {
                let mut rd = Reader::new(&buf);
                for _ in 0..off / 4 {
                    rd.get_bits(4).unwrap();
                }
                if off % 4 > 0 {
                    rd.get_bits((off % 4) as u8).unwrap();
                }
                let g = rd.get_bits(count as u8).ok();
                (g, rd.byte_offset(), rd.is_aligned())
            });
            let fits = off + count <= 16;
            let want = if fits { Some((u32::from(v) >> off & ((1 << count) - 1)) as u8) } else { None };
            let end = if fits { off + count } else { off };
            if let Some((g, o, al)) = got {
                let ok = g == want && o == (end / 8) as usize && al == (end % 8 == 0);
                cx.check(T, ok, || {
                    format!("get_bits({count}) at bit {off} of {v:#06x} gave {g:?} (offset {o}, aligned {al}), the input has {want:?}")
                });
            }
        }
    }
    cx.count("reader.bits_all");
}

pub fn writer(cx: &mut Ctx, r: &mut Rng) {
    let big = cx.case % 400 == 77;
    let n = if big { 65530 + r.below(300) } else { r.len_near(&[0, 1, 2, 3, 4, 8], 600) };
    if big {
        cx.count("writer.beyond_16_bits");
    }
    let fill = r.byte();
    let mut buf = vec![fill; n];
    let mut exp: Vec<u8> = vec![]; // accepted so far
    let steps = r.range(1, 30);
    // the operations are recorded and checked while the writer borrows the buffer; the contents are
    // looked at when it is gone, so use one writer per prefix length now and then
    let mut w = Writer::new(&mut buf);
    cx.ev(format!("writer over {n} bytes"), &[]);
    let mut tail: Option<Vec<u8>> = None; // what a failing put may have left: a prefix of this
    for _ in 0..steps {
        let left = n - exp.len();
        let (what, val, whole): (&str, Vec<u8>, bool) = match r.below(7) {
            0 => ("put", vec![r.byte()], true),
            1 => ("put_reserved", vec![0; if r.chance(1, 3) { r.len_near(&[left], 255) } else { r.below(6) }], false),
            2 => ("put_u16", r.bytes(2), false),
            3 => ("put_u24", r.bytes(8), false),
            4 => ("put_u32", r.bytes(4), false),
            _ if big && r.chance(1, 2) => ("extend", { let l = (65536 - 3 + r.below(4)).saturating_sub(exp.len()); r.bytes(l) }, true),
            _ => ("extend", { let l = if r.chance(1, 2) { r.len_near(&[left], left + 40) } else { r.below(9) }; r.bytes(l) }, true),
        };
        let le = |k: usize| val[..k].iter().rev().fold(0u64, |a, b| a << 8 | u64::from(*b));
        let bytes = if what == "put_u24" { val[..3].to_vec() } else { val.clone() };
        let got = cx.armed(what, || match what {
            "put" => w.put(val[0]),
            "put_reserved" => w.put_reserved(val.len() as u8),
            "put_u16" => w.put_u16(le(2) as u16),
            "put_u24" => w.put_u24(le(8) as usize),
            "put_u32" => w.put_u32(le(4) as u32),
            _ => w.extend(&val),
        });
        let got = match got {
            Some(g) => g,
            None => return,
        };
        let ok = bytes.len() <= left;
        cx.ev(format!("{what} {} of {left} left -> {got:?}", bytes.len()), &bytes);
        cx.count(&format!("writer.{what}.{}", if got.is_ok() { "ok" } else { "err" }));
        cx.distinct(mix(hash_bytes(what.as_bytes()) ^ (left.min(300) as u64) << 9 ^ bytes.len() as u64));
        if !cx.check(T, got.is_ok() == ok, || {
            format!("{what} of {} bytes with {left} left returned {got:?}", bytes.len())
        }) {
            return;
        }
        let at = exp.len();
        if let Ok(o) = got {
            exp.extend(&bytes);
            if !cx.check(T, o == exp.len(), || format!("{what} returned offset {o}, {} bytes are written", exp.len())) {
                return;
            }
        }
        let (o, rem, full) = match cx.armed("Writer accessors", || (w.offset(), w.remaining(), w.is_full())) {
            Some(v) => v,
            None => return,
        };
        if got.is_err() && !whole && o > at {
            // a partly written value: must be its first bytes
            let k = o - at;
            if !cx.check(T, k <= left, || format!("a failing {what} moved the offset from {at} to {o} of {n}")) {
                return;
            }
            exp.extend(&bytes[..k]);
        } else if got.is_err() {
            tail = Some(bytes.clone());
        }
        let fine = o == exp.len() && rem == n - exp.len() && full == (exp.len() == n);
        if !cx.check(T, fine, || {
            format!("after {what}: offset {o}, remaining {rem}, is_full {full}; {} of {n} bytes are written", exp.len())
        }) {
            return;
        }
    }
    let _ = (w, tail);
    cx.check(T, buf[..exp.len()] == exp[..], || {
        format!("the buffer holds {}, accepted was {}", crate::ctx::hex(&buf[..exp.len()]), crate::ctx::hex(&exp))
    });
    cx.check(T, buf[exp.len()..].iter().all(|b| *b == fill), || "bytes after the offset were written".into());
}

/// Appends and clears around the capacity, with copies and comparisons on the way.
pub fn store(cx: &mut Ctx, r: &mut Rng) {
    let cap = LIM.transcript;
    let mut live: Vec<(Box<Transcript>, Vec<u8>)> = vec![(Box::new(Transcript::new()), vec![])];
    for _ in 0..r.range(2, 30) {
        let i = r.below(live.len());
        match r.below(12) {
            0 => {
                let (t, e) = &mut live[i];
                if cx.armed("Transcript::clear", || t.clear()).is_none() {
                    return;
                }
                e.clear();
                cx.ev("clear", &[]);
                cx.count("store.clear");
            }
            1 => {
                if live.len() < 3 {
                    let e = live[i].1.clone();
                    match cx.lib("Transcript::clone", || live[i].0.clone()) {
                        Some(t) => live.push((t, e)),
                        None => return,
                    }
                    cx.ev("clone", &[]);
                    cx.count("store.clone");
                }
            }
            2 => {
                let j = r.below(live.len());
                let want = live[i].1 == live[j].1;
                let got = cx.armed("Transcript ==", || *live[i].0 == *live[j].0);
                if let Some(g) = got {
                    cx.check(S, g == want, || format!("comparing transcripts gave {g}, contents equal: {want}"));
                    cx.count(&format!("store.eq.{want}"));
                }
            }
            _ => {
                let left = cap - live[i].1.len();
                let l = match r.below(6) {
                    0 => left,
                    1 => left + 1 + r.below(40),
                    2 => left.saturating_sub(1 + r.below(3)),
                    3 => r.below(left + 1),
                    _ => r.below(80).min(cap + 10),
                };
                let b = r.bytes(l);
                let (t, e) = &mut live[i];
                let ok = l <= left;
                match cx.armed("Transcript::extend", || t.extend(&b).is_ok()) {
                    Some(g) => {
                        cx.ev(format!("extend {l} of {left} -> {g}"), &[]);
                        if !cx.check(S, g == ok, || format!("appending {l} bytes with {left} of {cap} left returned ok: {g}")) {
                            return;
                        }
                    }
                    None => return,
                }
                if ok {
                    e.extend(&b);
                }
                cx.count(if !ok { "store.refused" } else if l == left && l > 0 { "store.exact_fill" } else { "store.appended" });
                cx.distinct(mix((left as u64) << 20 | l as u64));
            }
        }
        for (t, e) in &live {
            let got = cx.lib("Transcript::get", || t.get().to_vec());
            let len = cx.armed("Transcript::len", || t.len());
            match (got, len) {
                (Some(g), Some(l)) => {
                    if !cx.check(S, g == *e, || format!("the transcript holds {} bytes that are not the {} accepted ones", g.len(), e.len())) {
                        return;
                    }
                    cx.check(S, l == e.len(), || format!("len {l}, {} bytes were accepted", e.len()));
                }
                _ => return,
            }
        }
    }
}
