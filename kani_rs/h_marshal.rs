// Harnesses over the erased marshalling code. Every input below that comes from kani::any() ranges over all its values.
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::KVPairFormat_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::StaticallySized_v::StaticallySized;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::UniformSized_v::UniformSized;
use crate::marshalling::VariableSizedElementSeq_v::*;

fn any_buf<const N: usize>() -> Vec<u8> {
    let a: [u8; N] = kani::any();
    a.to_vec()
}
fn upto(n: usize) -> usize { let x: usize = kani::any(); kani::assume(x <= n); x }
fn le(d: &Vec<u8>, at: usize, n: usize) -> u64 {
    let mut r: u64 = 0;
    let mut i = 0;
    while i < n { r |= (d[at + i] as u64) << (8 * i); i += 1; }
    r
}
// one arbitrary index stands for all of them
fn frame(old: &Vec<u8>, new: &Vec<u8>, lo: usize, hi: usize) {
    assert!(old.len() == new.len(), "buffer length changed");
    let k: usize = kani::any();
    if k < old.len() && (k < lo || k >= hi) { assert!(old[k] == new[k], "byte outside the target range changed"); }
}

// ------------------------------------------------------------------ M01 round trip
macro_rules! int_rt { ($name:ident, $t:ty, $n:expr) => {
    #[kani::proof] #[kani::unwind(20)]
    fn $name() {
        let f: IntFormat<$t> = IntFormat::new();
        let v: $t = kani::any();
        let old = any_buf::<12>();
        let mut data = old.clone();
        let start = upto(12 - $n);
        assert!(f.exec_size(&v) == $n);
        assert!(f.exec_uniform_size() == $n);
        assert!(<$t as IntFormattable>::to_usize(v) as u64 == v as u64);
        assert!(<$t as IntFormattable>::from_usize(v as usize) == v);
        assert!(<$t as IntFormattable>::exec_max() as u64 == <$t>::MAX as u64);
        let end = f.exec_marshall(&v, &mut data, start);
        assert!(end == start + $n, "reported end");
        frame(&old, &data, start, end);
        assert!(le(&data, start, $n) == v as u64, "encoding is little endian");
        let s = Slice { start, end };
        assert!(f.exec_parsable(&s, &data));
        assert!(f.exec_parse(&s, &data) == v, "parse after marshall");
        assert!(f.try_parse(&s, &data) == Some(v), "try_parse after marshall");
        let s2 = Slice { start, end: 12 };
        assert!(f.exec_parse(&s2, &data) == v, "parse from a longer slice");
        kani::cover!(v as u64 == <$t>::MAX as u64 && start == 3);
    }
} }
int_rt!(m01_int_u8, u8, 1);
int_rt!(m01_int_u16, u16, 2);
int_rt!(m01_int_u32, u32, 4);
int_rt!(m01_int_u64, u64, 8);

macro_rules! useq_rt { ($name:ident, $t:ty, $n:expr, $len:expr, $start:expr, $buf:expr) => {
    #[kani::proof] #[kani::unwind(18)]
    fn $name() {
        let f = UniformSizedElementSeqFormat::new(IntFormat::<$t>::new());
        let src: [$t; $len] = kani::any();
        let v: Vec<$t> = src.to_vec();
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        let sz = f.exec_size(&v);
        assert!(sz == $len * $n, "size");
        let start: usize = $start;
        let end = f.exec_marshall(&v, &mut data, start);
        assert!(end == start + $len * $n, "reported end");
        frame(&old, &data, start, end);
        let s = Slice { start, end: start + $len * $n };
        assert!(f.exec_parsable(&s, &data));
        let p = f.exec_parse(&s, &data);
        assert!(p.len() == $len, "length after round trip");
        let k: usize = kani::any();
        if k < $len {
            assert!(p[k] == v[k], "element after round trip");
            assert!(le(&data, start + k * $n, $n) == v[k] as u64);
            assert!(f.exec_length(&s, &data) == $len && f.exec_gettable(&s, &data, k));
            assert!(f.exec_get_elt(&s, &data, k) == v[k], "random access");
            assert!(f.try_get_elt(&s, &data, k) == Some(v[k]), "checked random access");
            let e = f.exec_get(&s, &data, k);
            assert!(e.start == start + k * $n && e.end == e.start + $n);
        }
        kani::cover!(true);
    }
} }
useq_rt!(m01_useq_u8_4, u8, 1, 4, 1, 6);
useq_rt!(m01_useq_u8_1, u8, 1, 1, 2, 4);
useq_rt!(m01_useq_u8_0, u8, 1, 0, 1, 3);
useq_rt!(m01_useq_u16_3, u16, 2, 3, 1, 8);
useq_rt!(m01_useq_u16_2, u16, 2, 2, 0, 5);
useq_rt!(m01_useq_u32_2, u32, 4, 2, 1, 10);
useq_rt!(m01_useq_u64_2, u64, 8, 2, 1, 17);

macro_rules! rseq_rt { ($name:ident, $t:ty, $n:expr, $lt:ty, $ln:expr, $total:expr, $buf:expr) => {
    #[kani::proof] #[kani::unwind(20)]
    fn $name() {
        let f = ResizableUniformSizedElementSeqFormat::new(IntFormat::<$t>::new(), IntFormat::<$lt>::new(), $total);
        const MAX: usize = ($total - $ln) / $n;
        assert!(f.max_length == MAX);
        let n = upto(MAX);
        let src: [$t; MAX] = kani::any();
        let mut v: Vec<$t> = Vec::with_capacity(MAX);
        let mut i = 0;
        while i < n { v.push(src[i]); i += 1; }
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        assert!(f.exec_size(&v) == $total);
        let start = upto($buf - $total);
        let end = f.exec_marshall(&v, &mut data, start);
        assert!(end == start + $total, "reported end");
        frame(&old, &data, start, end);
        let s = Slice { start, end };
        assert!(f.exec_parsable(&s, &data));
        let p = f.exec_parse(&s, &data);
        assert!(p.len() == n, "length after round trip");
        assert!(le(&data, start, $ln) == n as u64, "stored length");
        let k: usize = kani::any();
        if k < n {
            assert!(p[k] == v[k], "element after round trip");
            assert!(le(&data, start + $ln + k * $n, $n) == v[k] as u64, "element position");
            assert!(f.exec_get_elt(&s, &data, k) == v[k], "random access");
            assert!(f.try_get_elt(&s, &data, k) == Some(v[k]), "checked random access");
        }
        kani::cover!(n == MAX && start > 0);
    }
} }
rseq_rt!(m01_rseq_u16_u8, u16, 2, u8, 1, 8, 9);
rseq_rt!(m01_rseq_u32_u16, u32, 4, u16, 2, 11, 12);
rseq_rt!(m01_rseq_u8_u32, u8, 1, u32, 4, 7, 8);
rseq_rt!(m01_rseq_u64_u64, u64, 8, u64, 8, 16, 17);

struct KV8; // one-byte length field, byte-string keys and values
impl KVTrait for KV8 {
    type LenType = u8;
    type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    type DataFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
    fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
}
struct KV16; // two-byte length field, wide keys
impl KVTrait for KV16 {
    type LenType = u16;
    type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u16>>;
    type DataFormat = IntFormat<u32>;
    fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
    fn data_format_new() -> Self::DataFormat { IntFormat::new() }
}
fn bytes_upto<const N: usize>() -> Vec<u8> {
    let n = upto(N);
    let a: [u8; N] = kani::any();
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < n { v.push(a[i]); i += 1; }
    v
}

macro_rules! kv_rt { ($name:ident, $kl:expr, $vl:expr, $start:expr, $buf:expr) => {
    #[kani::proof] #[kani::unwind(12)]
    fn $name() {
        let f: KVPairFormat<KV8> = KVPairFormat::new();
        let (k0, v0): ([u8; $kl], [u8; $vl]) = (kani::any(), kani::any());
        let kv = KVPair::<KV8> { key: k0.to_vec(), value: v0.to_vec() };
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        let sz = f.exec_size(&kv);
        assert!(sz == 1 + $kl + $vl, "size");
        let start: usize = $start;
        let end = f.exec_marshall(&kv, &mut data, start);
        assert!(end == start + 1 + $kl + $vl, "reported end");
        frame(&old, &data, start, end);
        assert!(data[start] == $kl, "stored key length");
        let k: usize = kani::any();
        if k < $kl { assert!(data[start + 1 + k] == k0[k], "key bytes in place"); }
        if k < $vl { assert!(data[start + 1 + $kl + k] == v0[k], "value bytes in place"); }
        data[start] = $kl; // checked equal just above: lets the parser below run on a concrete length
        let s = Slice { start, end: start + 1 + $kl + $vl };
        assert!(f.exec_parsable(&s, &data));
        let p = f.try_parse(&s, &data);
        assert!(p.is_some());
        let p = p.unwrap();
        assert!(p.key.len() == $kl && p.value.len() == $vl, "lengths after round trip");
        if k < $kl { assert!(p.key[k] == k0[k], "key after round trip"); }
        if k < $vl { assert!(p.value[k] == v0[k], "value after round trip"); }
        kani::cover!(true);
    }
} }
kv_rt!(m01_kv_0_0, 0, 0, 1, 3);
kv_rt!(m01_kv_1_2, 1, 2, 1, 6);
kv_rt!(m01_kv_2_1, 2, 1, 0, 5);
kv_rt!(m01_kv_3_0, 3, 0, 1, 5);

#[kani::proof] #[kani::unwind(12)]
fn m01_kv_wide() {
    let f: KVPairFormat<KV16> = KVPairFormat::new();
    let n = 1;
    let k0: u16 = kani::any();
    let key: Vec<u16> = vec![k0];
    let value: u32 = kani::any();
    let kv = KVPair::<KV16> { key, value };
    let old = any_buf::<9>();
    let mut data = old.clone();
    let sz = f.exec_size(&kv);
    assert!(sz == 2 + 2 * n + 4, "size");
    let start = 1;
    let end = f.exec_marshall(&kv, &mut data, start);
    assert!(end == start + 8, "reported end");
    frame(&old, &data, start, end);
    assert!(le(&data, start, 2) == 2, "stored key length");
    data[start] = 2;
    data[start + 1] = 0;
    let s = Slice { start, end: start + 8 };
    let p = f.exec_parse(&s, &data);
    assert!(p.key.len() == n && p.value == value, "round trip");
    if n == 1 { assert!(p.key[0] == k0); }
    kani::cover!(true);
}

// ------------------------------------------------------------------ M02 in-place updates
macro_rules! useq_set { ($name:ident, $t:ty, $n:expr, $buf:expr) => {
    #[kani::proof] #[kani::unwind(20)]
    fn $name() {
        let f = UniformSizedElementSeqFormat::new(IntFormat::<$t>::new());
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        let (a, b) = (upto($buf), upto($buf));
        kani::assume(a <= b);
        let s = Slice { start: a, end: b };
        let (i, j): (usize, usize) = (kani::any(), kani::any());
        let v: $t = kani::any();
        let n = (b - a) / $n;
        assert!(f.exec_length(&s, &data) == n && f.try_length(&s, &data) == Some(n));
        kani::assume(i < n && j < n);
        assert!(f.exec_settable(&s, &data, i, &v));
        let before = f.exec_get_elt(&s, &data, j);
        f.exec_set(&s, &mut data, i, &v);
        frame(&old, &data, a + i * $n, a + (i + 1) * $n);
        assert!(f.exec_get_elt(&s, &data, j) == if i == j { v } else { before }, "other elements keep their value");
        kani::cover!(i != j && a > 0);
    }
} }
useq_set!(m02_useq_set_u8, u8, 1, 5);
useq_set!(m02_useq_set_u32, u32, 4, 10);
useq_set!(m02_useq_set_u64, u64, 8, 18);

macro_rules! rseq_upd { ($set:ident, $resize:ident, $append:ident, $t:ty, $n:expr, $lt:ty, $ln:expr, $total:expr, $buf:expr) => {
    #[kani::proof] #[kani::unwind(20)]
    fn $set() {
        let f = ResizableUniformSizedElementSeqFormat::new(IntFormat::<$t>::new(), IntFormat::<$lt>::new(), $total);
        const MAX: usize = ($total - $ln) / $n;
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        let a = upto($buf - $total);
        let s = Slice { start: a, end: $buf };
        let (i, j): (usize, usize) = (kani::any(), kani::any());
        let v: $t = kani::any();
        kani::assume(j < MAX);
        assert!(f.exec_settable(&s, &data, i, &v) == (i < MAX), "settable");
        kani::assume(i < MAX);
        let len = f.exec_length(&s, &data);
        assert!(len as u64 == le(&data, a, $ln));
        let before = f.exec_get_elt(&s, &data, j);
        f.exec_set(&s, &mut data, i, &v);
        frame(&old, &data, a + $ln + i * $n, a + $ln + (i + 1) * $n);
        assert!(f.exec_length(&s, &data) == len, "length kept");
        assert!(f.exec_get_elt(&s, &data, j) == if i == j { v } else { before }, "other elements keep their value");
        kani::cover!(i != j && a > 0);
    }
    #[kani::proof] #[kani::unwind(20)]
    fn $resize() {
        let f = ResizableUniformSizedElementSeqFormat::new(IntFormat::<$t>::new(), IntFormat::<$lt>::new(), $total);
        const MAX: usize = ($total - $ln) / $n;
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        let a = upto($buf - $total);
        let s = Slice { start: a, end: $buf };
        let newlen: usize = kani::any();
        let ok = f.exec_resizable(&s, &data, newlen);
        assert!(ok == (newlen <= MAX && newlen as u128 <= <$lt>::MAX as u128), "resizable");
        kani::assume(ok);
        f.resize(&s, &mut data, newlen);
        frame(&old, &data, a, a + $ln);
        assert!(f.exec_length(&s, &data) == newlen, "length after resize");
        kani::cover!(newlen == MAX && a > 0);
        let mut d2 = old.clone();
        f.initialize(&s, &mut d2);
        assert!(f.exec_length(&s, &d2) == 0 && f.exec_well_formed(&s, &d2), "initialised empty");
        frame(&old, &d2, a, a + $ln);
    }
    #[kani::proof] #[kani::unwind(20)]
    fn $append() {
        let f = ResizableUniformSizedElementSeqFormat::new(IntFormat::<$t>::new(), IntFormat::<$lt>::new(), $total);
        const MAX: usize = ($total - $ln) / $n;
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        let a = upto($buf - $total);
        let s = Slice { start: a, end: $buf };
        let v: $t = kani::any();
        assert!(f.exec_well_formed(&s, &data));
        let len = f.exec_length(&s, &data);
        let ok = f.exec_appendable(&s, &data, &v);
        assert!(ok == (len < MAX), "appendable exactly while there is room");
        kani::assume(ok);
        let j: usize = kani::any();
        kani::assume(j <= len);
        let before = if j < len { f.exec_get_elt(&s, &data, j) } else { v };
        f.exec_append(&s, &mut data, &v);
        assert!(f.exec_length(&s, &data) == len + 1, "length grows by one");
        assert!(f.exec_get_elt(&s, &data, j) == before, "earlier elements kept, the new one last");
        let k: usize = kani::any();
        if k < $buf && (k < a || (k >= a + $ln && (k < a + $ln + len * $n || k >= a + $ln + (len + 1) * $n))) {
            assert!(old[k] == data[k], "unrelated byte changed");
        }
        kani::cover!(len == MAX - 1 && j < len && a > 0);
    }
} }
rseq_upd!(m02_rseq_set_u16, m02_rseq_resize_u16, m02_rseq_append_u16, u16, 2, u8, 1, 8, 10);
rseq_upd!(m02_rseq_set_u32, m02_rseq_resize_u32, m02_rseq_append_u32, u32, 4, u16, 2, 11, 13);
rseq_upd!(m02_rseq_set_u8, m02_rseq_resize_u8, m02_rseq_append_u8, u8, 1, u32, 4, 8, 9);

type BytesF = UniformSizedElementSeqFormat<IntFormat<u8>>;
fn bytesf() -> BytesF { UniformSizedElementSeqFormat::new(IntFormat::new()) }
// the documented page format: the length fits, offsets descend from the end of the page and stay clear of the table
fn page_ok(d: &Vec<u8>, a: usize, total: usize, bn: usize, ln: usize) -> bool {
    let max = (total - ln) / bn;
    let len = le(d, a, ln) as usize;
    if len > max { return false; }
    let mut k = 0;
    let mut prev = total;
    while k < max {
        if k < len {
            let o = le(d, a + ln + k * bn, bn) as usize;
            if o > prev { return false; }
            prev = o;
        }
        k += 1;
    }
    len == 0 || prev >= ln + len * bn
}
macro_rules! vseq { ($name:ident, $bt:ty, $bn:expr, $lt:ty, $ln:expr, $total:expr, $buf:expr, $maxlen:expr, $vl:expr) => {
    #[kani::proof] #[kani::unwind(12)]
    fn $name() {
        let f = VariableSizedElementSeqFormat::new(bytesf(), IntFormat::<$bt>::new(), IntFormat::<$lt>::new(), $total);
        let old = any_buf::<$buf>();
        let mut data = old.clone();
        let a: usize = $buf - $total;
        let s = Slice { start: a, end: $buf };
        // an arbitrary well-formed page (M03 shows that the code accepts exactly these)
        kani::assume(page_ok(&data, a, $total, $bn, $ln));
        let len = f.exec_length(&s, &data);
        kani::assume(len <= $maxlen);
        let src: [u8; $vl] = kani::any();
        let v = src.to_vec();
        let ub = if len == 0 { $total } else { le(&old, a + $ln + (len - 1) * $bn, $bn) as usize };
        let room = ub - ($ln + len * $bn);
        let ok = f.exec_appendable(&s, &data, &v);
        assert!(ok == (v.len() + $bn <= room), "appendable exactly while there is room");
        kani::assume(ok);
        f.exec_append(&s, &mut data, &v);
        assert!(f.exec_length(&s, &data) == len + 1, "length grows by one");
        assert!(page_ok(&data, a, $total, $bn, $ln), "still well formed");
        let e = f.exec_get(&s, &data, len);
        assert!(e.end - e.start == v.len(), "length of the new element");
        let k: usize = kani::any();
        if k < v.len() { assert!(data[e.start + k] == v[k], "bytes of the new element"); }
        let j: usize = kani::any();
        if j < len {
            let lo = le(&old, a + $ln + j * $bn, $bn) as usize;
            let hi = if j == 0 { $total } else { le(&old, a + $ln + (j - 1) * $bn, $bn) as usize };
            let g = f.try_get(&s, &data, j).unwrap();
            assert!(g.start == a + lo && g.end == a + hi, "earlier element keeps its place");
            let x: usize = kani::any();
            if g.start <= x && x < g.end { assert!(old[x] == data[x], "earlier element keeps its bytes"); }
        }
        let k2: usize = kani::any();
        if k2 < a || (k2 >= a + $total && k2 < $buf) { assert!(old[k2] == data[k2], "byte outside the sequence changed"); }
        kani::cover!(len == 1);
    }
} }
vseq!(m02_vseq_append_u8_0, u8, 1, u8, 1, 6, 7, 2, 0);
vseq!(m02_vseq_append_u8_1, u8, 1, u8, 1, 6, 7, 2, 1);
vseq!(m02_vseq_append_u8_2, u8, 1, u8, 1, 6, 7, 2, 2);
vseq!(m02_vseq_append_u16_1, u16, 2, u16, 2, 10, 11, 2, 1);
vseq!(m02_vseq_append_u16_2, u16, 2, u16, 2, 10, 11, 2, 2);

#[kani::proof] #[kani::unwind(12)]
fn m02_vseq_history() {
    // from an initialised page: every sequence of two appends reads back in order
    let f = VariableSizedElementSeqFormat::new(bytesf(), IntFormat::<u8>::new(), IntFormat::<u8>::new(), 7);
    let mut data = any_buf::<7>();
    let s = Slice { start: 0, end: 7 };
    f.initialize(&s, &mut data);
    let a = bytes_upto::<2>();
    let b = bytes_upto::<2>();
    assert!(f.exec_appendable(&s, &data, &a));
    f.exec_append(&s, &mut data, &a);
    assert!(f.exec_appendable(&s, &data, &b));
    f.exec_append(&s, &mut data, &b);
    assert!(f.exec_length(&s, &data) == 2);
    let (x, y) = (f.exec_get(&s, &data, 0), f.exec_get(&s, &data, 1));
    assert!(x.end - x.start == a.len() && y.end - y.start == b.len());
    let k: usize = kani::any();
    if k < a.len() { assert!(data[x.start + k] == a[k], "first element"); }
    if k < b.len() { assert!(data[y.start + k] == b[k], "second element"); }
    let p = f.exec_get_elt(&s, &data, 0);
    assert!(p.len() == a.len());
    kani::cover!(a.len() == 2 && b.len() == 2);
}

// ------------------------------------------------------------------ M03 arbitrary bytes
macro_rules! int_any { ($name:ident, $t:ty, $n:expr) => {
    #[kani::proof] #[kani::unwind(12)]
    fn $name() {
        let f: IntFormat<$t> = IntFormat::new();
        let data = any_buf::<10>();
        let (a, b) = (upto(10), upto(10));
        kani::assume(a <= b);
        let s = Slice { start: a, end: b };
        let r = f.try_parse(&s, &data);
        assert!(r.is_some() == (b - a >= $n), "accepted exactly when long enough");
        assert!(f.exec_parsable(&s, &data) == r.is_some());
        if let Some(v) = r { assert!(v as u64 == le(&data, a, $n), "value read"); }
        kani::cover!(r.is_some());
    }
} }
int_any!(m03_int_u8, u8, 1);
int_any!(m03_int_u16, u16, 2);
int_any!(m03_int_u32, u32, 4);
int_any!(m03_int_u64, u64, 8);

#[kani::proof] #[kani::unwind(12)]
fn m03_useq() {
    let f = UniformSizedElementSeqFormat::new(IntFormat::<u16>::new());
    let data = any_buf::<7>();
    let mut a = 0;
    while a <= 7 { let mut b = a; while b <= 7 { m03_useq_at(&f, &data, a, b); b += 3; } a += 2; }
}
fn m03_useq_at(f: &UniformSizedElementSeqFormat<IntFormat<u16>>, data: &Vec<u8>, a: usize, b: usize) {
    let s = Slice { start: a, end: b };
    let i: usize = kani::any();
    let n = (b - a) / 2;
    assert!(f.exec_gettable(&s, &data, i) == (i < n));
    let g = f.try_get(&s, &data, i);
    assert!(g.is_some() == (i < n));
    if let Some(e) = g { assert!(e.start >= a && e.end <= b && e.end == e.start + 2, "element inside the slice"); }
    let x = f.try_get_elt(&s, &data, i);
    assert!(x.is_some() == (i < n));
    let p = f.try_parse(&s, &data);
    assert!(p.is_some());
    let p = p.unwrap();
    assert!(p.len() == n);
    if i < n { assert!(p[i] as u64 == le(&data, a + 2 * i, 2) && x == Some(p[i])); }
    kani::cover!(i == 1 && a == 2);
}

macro_rules! rseq_any { ($name:ident, $t:ty, $n:expr, $lt:ty, $ln:expr, $total:expr, $buf:expr) => {
    #[kani::proof] #[kani::unwind(10)]
    fn $name() {
        let f = ResizableUniformSizedElementSeqFormat::new(IntFormat::<$t>::new(), IntFormat::<$lt>::new(), $total);
        const MAX: usize = ($total - $ln) / $n;
        let data = any_buf::<$buf>();
        let (a, b) = (upto($buf), upto($buf));
        kani::assume(a <= b);
        let s = Slice { start: a, end: b };
        let i: usize = kani::any();
        let fits = b - a >= $total;
        let ol = f.try_length(&s, &data);
        assert!(ol.is_some() == fits && f.exec_lengthable(&s, &data) == fits && f.exec_well_formed(&s, &data) == fits);
        assert!(f.exec_gettable(&s, &data, i) == (fits && i < MAX));
        let g = f.try_get(&s, &data, i);
        assert!(g.is_some() == (fits && i < MAX));
        if let Some(e) = g { assert!(e.start >= a + $ln && e.end <= a + $total && e.end == e.start + $n, "element inside"); }
        let x = f.try_get_elt(&s, &data, i);
        assert!(x.is_some() == (fits && i < MAX));
        if fits {
            let len = le(&data, a, $ln);
            assert!(ol.unwrap() as u64 == len);
            let p = f.try_parse(&s, &data);
            assert!(p.is_some() == (len <= MAX as u64), "accepted exactly when the stored length fits");
            if let Some(p) = p {
                assert!(p.len() as u64 == len);
                if i < p.len() { assert!(p[i] as u64 == le(&data, a + $ln + i * $n, $n) && x == Some(p[i])); }
            }
            kani::cover!(len == MAX as u64);
            kani::cover!(len > MAX as u64);
        }
    }
} }
rseq_any!(m03_rseq_u16_u8, u16, 2, u8, 1, 6, 7);
rseq_any!(m03_rseq_u8_u16, u8, 1, u16, 2, 5, 6);
rseq_any!(m03_rseq_u8_u32, u8, 1, u32, 4, 6, 7);
rseq_any!(m03_rseq_u8_u64, u8, 1, u64, 8, 10, 10);

macro_rules! vseq_any { ($name:ident, $bt:ty, $bn:expr, $lt:ty, $ln:expr, $total:expr, $buf:expr) => {
    #[kani::proof] #[kani::unwind(10)]
    fn $name() {
        let f = VariableSizedElementSeqFormat::new(bytesf(), IntFormat::<$bt>::new(), IntFormat::<$lt>::new(), $total);
        const MAX: usize = ($total - $ln) / $bn;
        let data = any_buf::<$buf>();
        let (a, b) = (upto($buf), upto($buf));
        kani::assume(a <= b);
        let s = Slice { start: a, end: b };
        let i: usize = kani::any();
        let g = f.try_get(&s, &data, i);
        let x = f.try_get_elt(&s, &data, i);
        assert!(x.is_some() == g.is_some());
        if let Some(e) = &g {
            assert!(e.start <= e.end && e.start >= a && e.end <= a + $total && e.end <= b, "element inside the slice");
            assert!(x.unwrap().len() == e.end - e.start);
        }
        let w = f.exec_well_formed(&s, &data);
        let want = b - a >= $total && page_ok(&data, a, $total, $bn, $ln);
        if want && i < le(&data, a, $ln) as usize { assert!(g.is_some(), "every element of a well-formed page is readable"); }
        assert!(w == want, "well-formed exactly when the page follows the format");
        kani::cover!(w && a == 1 && data[a] == 2);
    }
} }
vseq_any!(m03_vseq_u8, u8, 1, u8, 1, 6, 7);
vseq_any!(m03_vseq_u16, u16, 2, u16, 2, 8, 9);

// kl: the stored key length, when the slice is not empty
fn m03_kv_at<const N: usize>(a: usize, b: usize, kl: Option<u8>) {
    let f: KVPairFormat<KV8> = KVPairFormat::new();
    let mut data = any_buf::<N>();
    if let Some(k) = kl { data[a] = k; }
    let s = Slice { start: a, end: b };
    let want = b > a && 1 + data[a] as usize <= b - a;
    let p = f.try_parse(&s, &data);
    assert!(p.is_some() == want, "accepted exactly when the key fits");
    assert!(f.exec_parsable(&s, &data) == want);
    if let Some(kv) = p {
        let kl = data[a] as usize;
        assert!(kv.key.len() == kl && kv.value.len() == b - a - 1 - kl);
        let k: usize = kani::any();
        if k < kl { assert!(kv.key[k] == data[a + 1 + k]); }
        if k < kv.value.len() { assert!(kv.value[k] == data[a + 1 + kl + k]); }
    }
    kani::cover!(true);
}
#[kani::proof] #[kani::unwind(10)]
fn m03_kv_reject() { m03_kv_at::<3>(1, 1, None); m03_kv_at::<3>(1, 2, Some(1)); m03_kv_at::<5>(1, 4, Some(3)); m03_kv_at::<4>(0, 4, Some(255)); }
#[kani::proof] #[kani::unwind(10)]
fn m03_kv_accept_a() { m03_kv_at::<4>(1, 2, Some(0)); m03_kv_at::<4>(1, 4, Some(2)); }
#[kani::proof] #[kani::unwind(10)]
fn m03_kv_accept_b() { m03_kv_at::<5>(1, 5, Some(1)); m03_kv_at::<4>(0, 4, Some(0)); }

#[kani::proof] #[kani::unwind(12)]
fn m03_kv_wide() {
    let f: KVPairFormat<KV16> = KVPairFormat::new();
    let data = any_buf::<9>();
    let (a, b) = (upto(9), upto(9));
    kani::assume(a <= b);
    let s = Slice { start: a, end: b };
    let p = f.try_parse(&s, &data);
    let want = b - a >= 2 && 2 + le(&data, a, 2) as usize + 4 <= b - a;
    assert!(p.is_some() == want, "accepted exactly when key and value fit");
    if let Some(kv) = p {
        let kl = le(&data, a, 2) as usize;
        assert!(kv.key.len() == kl / 2 && kv.value as u64 == le(&data, a + 2 + kl, 4));
        kani::cover!(kl == 2);
    }
}
