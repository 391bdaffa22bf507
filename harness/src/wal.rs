//! The write-ahead log: layout of an entry, what a segment holds under each policy.
use crate::prim::*;
use monolith::verif::{wal_magic_number, Entry, EntryType, FlushPolicy, Segment};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn bytes_of(id: u64, data: &[u8], crc: u32) -> Vec<u8> {
    let mut v = id.to_be_bytes().to_vec();
    v.push(0);
    v.extend_from_slice(&(data.len() as u16).to_be_bytes());
    v.extend_from_slice(data);
    v.extend_from_slice(&crc.to_be_bytes());
    v
}
/// An entry is its number, kind, length, data and checksum, however the data was pushed.
pub fn entry() {
    let id = u64();
    let n = choose(5);
    // the last byte pushed decides one step of the checksum
    let mut data: Vec<u8> = (0..n).map(|i| 250u8.wrapping_add(i as u8 * 3)).collect();
    if n > 0 { data[n - 1] = u8() }
    let mut e = Entry::new(id, EntryType::Default);
    let cut = choose(n + 1);
    e.push(data[..cut].to_vec());
    e.push(data[cut..].to_vec());
    let b = if boolean() { e.clone().get_bytes() } else { e.get_bytes() };
    check(b.len() == 15 + n, "entry-length");
    check(e.len() == b.len(), "entry-length");
    // the checksum without branches on the data
    let mut c = !0u32;
    for &x in &data { c ^= x as u32; for _ in 0..8 { c = (c >> 1) ^ (0xedb8_8320 & (c & 1).wrapping_neg()) } }
    check(b == bytes_of(id, &data, !c), "entry-bytes");
    reach("entry");
}
/// Any contents at all: they are kept, and the checksum is that of the contents.
pub fn entry_any() {
    let id = u64();
    let n = choose(2);
    let data = vecn(n);
    let mut e = Entry::new(id, EntryType::Default);
    e.push(data.clone());
    let b = e.get_bytes();
    check(b.len() == 15 + n && e.len() == 15 + n, "entry-length");
    check(b == bytes_of(id, &data, crc::crc32::checksum_ieee(&data)), "entry-bytes");
    reach("entry");
}
/// A clone that is pushed to is checked like any other entry.
pub fn entry_clone() {
    let (a, b) = (vecn(2), vecn(1));
    let mut e = Entry::new(1, EntryType::Default);
    e.push(a.clone());
    let mut f = e.clone();
    f.push(b.clone());
    let mut g = Entry::new(1, EntryType::Default);
    g.push([&a[..], &b[..]].concat());
    check(f.get_bytes() == g.get_bytes(), "clone-bytes");
    reach("clone");
}

#[derive(Clone)]
pub struct Sink { out: Arc<Mutex<Vec<u8>>>, most: usize, fail: Arc<Mutex<Option<usize>>> }
impl Sink {
    pub fn new(most: usize) -> Sink { Sink { out: Default::default(), most, fail: Default::default() } }
    pub fn len(&self) -> usize { self.out.lock().unwrap().len() }
    pub fn got(&self) -> Vec<u8> { self.out.lock().unwrap().clone() }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(n) = &mut *self.fail.lock().unwrap() { if *n == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")) } *n -= 1 }
        let n = b.len().min(self.most);
        self.out.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn policy(k: usize) -> FlushPolicy {
    match k {
        0 => FlushPolicy::Immediate,
        1 => FlushPolicy::NumBased(1), 2 => FlushPolicy::NumBased(2), 3 => FlushPolicy::NumBased(3),
        4 => FlushPolicy::SizeBased(1), 5 => FlushPolicy::SizeBased(20), 6 => FlushPolicy::SizeBased(40),
        _ => FlushPolicy::TimeBased(Duration::from_secs(1)),
    }
}
/// Most entries / bytes a segment may still hold back.
fn held(k: usize, entries: usize, bytes: usize) -> bool {
    match k { 0 => entries == 0, 1 => entries < 1, 2 => entries < 2, 3 => entries < 3, 4 => bytes < 1, 5 => bytes < 20, 6 => bytes < 40, _ => true }
}
fn make(id: u64, n: usize, any: bool) -> (Entry, Vec<u8>) {
    let mut data = vecn(if any { n } else { 0 });
    data.extend((data.len()..n).map(|i| (i * 37) as u8 ^ id as u8));
    let mut e = Entry::new(id, EntryType::Default);
    e.push(data);
    let b = e.get_bytes();
    (e, b)
}
/// Entries reach the file whole and in order; none is held back beyond the policy; closing writes all and the checksum.
pub fn segment() {
    let k = choose(8);
    let sink = Sink::new(pick(&[usize::max_value(), 3]));
    let mut s = match Segment::new(policy(k), sink.clone()) { Ok(s) => s, Err(_) => { check(false, "segment-refused"); return } };
    let magic = wal_magic_number().to_be_bytes().to_vec();
    check(sink.got() == magic, "segment-magic");
    let n = choose(4);
    // contents either symbolic, or fixed and the checksum of the file checked as well
    let any = boolean();
    let mut want: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let (e, b) = make(i as u64, [0, 2, 9][i], any);
        want.push(b);
        check(s.write_entry(e).is_ok(), "entry-refused");
        // whole entries, a prefix of them
        let got = sink.got();
        let (mut at, mut m) = (8, 0);
        while m < want.len() && at < got.len() { at += want[m].len(); m += 1 }
        check(at == got.len(), "segment-part");
        check(got[8..] == want[..m].concat()[..], "segment-entries");
        check(held(k, want.len() - m, want[m..].concat().len()), "held-back");
    }
    let flush = boolean();
    if flush { check(s.flush().is_ok(), "flush-refused"); check(sink.got()[8..] == want.concat()[..], "flush-entries") }
    check(s.close().is_ok(), "close-refused");
    let all = want.concat();
    let got = sink.got();
    check(got.len() == 8 + all.len() + 8, "closed-length");
    if got.len() == 16 + all.len() {
        check(got[8..8 + all.len()] == all[..], "closed-entries");
        check(any || got[8 + all.len()..] == crc::crc64::checksum_ecma(&all).to_be_bytes()[..], "closed-checksum");
    }
    reach("closed");
}
/// Many entries, small and large, under tighter and wider policies, flushed in between or not.
pub fn run() {
    let kind = choose(3);
    let lim = if kind == 1 { choose(10) } else { pick(&[0usize, 1, 15, 16, 17, 30, 31, 32, 33, 50, 100, 105, 1000]) };
    let pol = match kind { 0 => FlushPolicy::Immediate, 1 => FlushPolicy::NumBased(lim), _ => FlushPolicy::SizeBased(lim) };
    let lim = lim.max(1);
    let shape = choose(4);
    let sink = Sink::new([usize::max_value(), 1, 64, 5][shape]);
    let mut s = match Segment::new(pol, sink.clone()) { Ok(s) => s, Err(_) => { check(false, "segment-refused"); return } };
    let at = pick(&[3usize, 20]);
    let mut want: Vec<Vec<u8>> = vec![];
    for i in 0..8u64 {
        let n = match shape { 0 => 0, 1 => 1 + (i as usize % 3), 2 => if i % 5 == 4 { 90 } else { 2 }, _ => i as usize };
        let data: Vec<u8> = (0..n).map(|j| (j as u8).wrapping_mul(29) ^ i as u8).collect();
        let mut e = Entry::new(i, EntryType::Default);
        e.push(data);
        want.push(e.get_bytes());
        check(s.write_entry(e).is_ok(), "entry-refused");
        let got = sink.got();
        let (mut a, mut m) = (8, 0);
        while m < want.len() && a < got.len() { a += want[m].len(); m += 1 }
        check(a == got.len(), "segment-part");
        check(got[8..] == want[..m].concat()[..], "segment-entries");
        let (en, by) = (want.len() - m, want[m..].concat().len());
        check(match kind { 0 => en == 0, 1 => en < lim, _ => by < lim }, "held-back");
        if at == i as usize { check(s.flush().is_ok(), "flush-refused"); check(sink.got()[8..] == want.concat()[..], "flush-entries") }
    }
    check(s.close().is_ok(), "close-refused");
    let all = want.concat();
    let got = sink.got();
    check(got.len() == 16 + all.len(), "closed-length");
    if got.len() == 16 + all.len() { check(got[8..8 + all.len()] == all[..], "closed-entries") }
    reach("run");
}
/// A write that fails is not reported as done.
pub fn segment_fault() {
    let k = choose(8);
    let sink = Sink::new(pick(&[usize::max_value(), 7]));
    let at = choose(6);
    *sink.fail.lock().unwrap() = Some(at);
    let magic = wal_magic_number().to_be_bytes().to_vec();
    let mut want = magic;
    let mut bad = false;
    match Segment::new(policy(k), sink.clone()) {
        Ok(mut s) => {
            for i in 0..2 { let (e, b) = make(i, 3, false); want.extend(b); bad |= s.write_entry(e).is_err() }
            if boolean() { bad |= s.flush().is_err(); if !bad { check(sink.got() == want, "failed-flush-acknowledged") } }
            bad |= s.close().is_err();
            want.extend_from_slice(&crc::crc64::checksum_ecma(&want[8..]).to_be_bytes());
        }
        Err(_) => bad = true,
    }
    if !bad { check(sink.got() == want, "failed-write-acknowledged") }
    reach(if bad { "fault-reported" } else { "no-fault" });
}
/// Entries at the limit of the length field.
pub fn entry_long() {
    let n = pick(&[255usize, 256, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072]);
    let sink = Sink::new(usize::max_value());
    let mut s = match Segment::new(policy(pick(&[0usize, 2, 6])), sink.clone()) { Ok(s) => s, Err(_) => { check(false, "segment-refused"); return } };
    let mut e = Entry::new(9, EntryType::Default);
    e.push(vec![7; n]);
    let want = e.get_bytes();
    check(e.len() == 15 + n, "entry-length");
    if n <= 65535 { check(want == bytes_of(9, &vec![7; n], crc::crc32::checksum_ieee(&vec![7; n])), "entry-bytes") }
    let ok = s.write_entry(e).is_ok();
    check(s.close().is_ok(), "close-refused");
    let got = sink.got();
    if ok {
        check(n <= 65535, "long-entry-acknowledged");
        check(got.len() == 16 + want.len() && got[8..8 + want.len()] == want[..], "long-entry");
    } else {
        check(n > 65535, "entry-refused");
        check(got.len() == 16, "refused-entry-written");
    }
    reach("long");
}
