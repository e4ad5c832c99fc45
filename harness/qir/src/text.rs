//! Strings, conversions to text and the recorded output.
use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::ffi::{CStr, CString, c_char, c_void};
use std::fmt::{Formatter, Write as _};
use std::io::{Read as _, Write as _};
use std::ptr::null_mut;
use sym::*;

// ---- stand-ins for the standard library's formatting of doubles that are not constant:
// an injective text of the value and of everything that was asked of the formatter
fn token(f: &mut Formatter, kind: u8, x: f64, plus: bool, prec: u16) -> bool {
    let mut b = [0u8; 24];
    b[0] = b'<';
    b[1] = kind;
    b[2] = if plus { b'+' } else { b'-' };
    b[3] = b'0' + prec as u8;
    b[4] = b'0' + f.width().unwrap_or(0) as u8;
    b[5] = if f.alternate() { b'#' } else { b'.' };
    b[6] = if f.sign_aware_zero_pad() { b'0' } else { b'.' };
    let v = x.to_bits();
    for i in 0..16 { b[7 + i] = b'a' + (v >> (4 * i) & 15) as u8; }
    b[23] = b'>';
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b) }).is_err()
}
#[unsafe(no_mangle)] pub extern "C" fn sym_stub_float_exact(f: &mut Formatter, x: f64, plus: bool, prec: u16) -> bool { token(f, b'e', x, plus, prec) }
#[unsafe(no_mangle)] pub extern "C" fn sym_stub_float_shortest(f: &mut Formatter, x: f64, plus: bool) -> bool { token(f, b's', x, plus, 0) }
#[unsafe(no_mangle)] pub extern "C" fn sym_stub_float_exp(f: &mut Formatter, x: f64, plus: bool) -> bool { token(f, b'x', x, plus, 0) }

// what the word-at-a-time search of the standard library computes, a byte at a time
#[allow(improper_ctypes_definitions)]
#[unsafe(no_mangle)] pub unsafe extern "C" fn sym_stub_memchr(b: u8, p: *const u8, n: usize) -> Option<usize> { for i in 0..n { if unsafe { *p.add(i) } == b { return Some(i); } } None }

/// n symbolic bytes other than NUL, with the terminator
fn text(n: usize) -> Vec<u8> { let mut v: Vec<u8> = (0..n).map(|_| { let b = bits(8) as u8; assume(b != 0); b }).collect(); v.push(0); v }
fn ascii(n: usize) -> Vec<u8> { let mut v: Vec<u8> = (0..n).map(|_| { let b = bits(7) as u8; assume(b != 0); b }).collect(); v.push(0); v }
unsafe fn is(s: *const CString, want: &[u8], id: &str) { unsafe {
    check(__quantum__rt__string_get_length(s) as usize == want.len(), id);
    let p = __quantum__rt__string_get_data(s).cast::<u8>();
    for (i, b) in want.iter().enumerate() { check(*p.add(i) == *b, id); }
    check(*p.add(want.len()) == 0, "the data of a string is terminated");
} }
unsafe fn gone(s: *const CString) { unsafe { __quantum__rt__string_update_reference_count(s, -1) } }
fn buffered() { OUTPUT.with(|o| o.borrow_mut().use_std_out(false)); }
fn drained() -> Vec<u8> { OUTPUT.with(|o| o.borrow_mut().drain().collect()) }
fn same(a: &[u8], b: &[u8], id: &str) { check(a.len() == b.len(), id); for (x, y) in a.iter().zip(b) { check(*x == *y, id); } }
/// a 64-bit integer: any one of a few bits wide window around a base, or all 64 bits
fn number() -> i64 { let k = choice(6); match k { 0 => int(), 1 => (bits(6) as i64) - 32, 2 => i64::MIN + bits(3) as i64, 3 => i64::MAX - bits(3) as i64, 4 => (1i64 << 32) - 4 + bits(3) as i64, _ => -(1i64 << 31) - 4 + bits(3) as i64 } }
/// a double: any sign and mantissa, with an exponent out of a few
fn double_with(k: usize) -> f64 { let e = [1023u64, 1024, 1033, 1073, 1074, 1075, 1083, 1022, 1000, 1, 0, 2046][k]; f64::from_bits(bits(1) << 63 | e << 52 | bits(52)) }
/// by convention whole numbers show one decimal place
fn dbl(x: f64) -> String { if x.is_finite() && x.trunc() == x { format!("{x:.1}") } else { format!("{x}") } }

const LONG: &str = "0123456789abcdef 0123456789ABCDEF\t0123456789abcdef\r0123456789ABCDEF 0123456789abcdef 0123456789ABCDEF\\0123456789abcdef 0123456789ABCDEF 0123456789abcdef 0123456789ABCDEF";

entries! {
    h_l15a {
        // what is recorded goes where it was last said to go, and is taken exactly once
        let first = choice(9);
        let t = [b'a' + bits(4) as u8, b'A' + bits(4) as u8, 0];
        let b = bits(1) == 1;
        capture();
        let (mut out, mut buf, mut std) = (vec![], vec![], true);
        for i in 0..(if thorough() { 5 } else { 4 }) {
            let mut line: Vec<u8> = vec![];
            match if i == 0 { first } else { choice(9) } {
                0 => { __quantum__rt__bool_record_output(b, t.as_ptr() as *mut c_char); line.extend(format!("OUTPUT\tBOOL\t{}\t", if b { "true" } else { "false" }).bytes()); line.extend(&t[..2]); line.push(b'\n'); }
                1 => { __quantum__rt__array_record_output(i as i64, null_mut()); line.extend(format!("OUTPUT\tARRAY\t{i}\n").bytes()); }
                2 => { let m = CString::from_vec_with_nul_unchecked(t.to_vec()); __quantum__rt__message(&m); line.extend(b"INFO\t"); line.extend(&t[..2]); line.push(b'\n'); }
                3 => { let t = ["a\nb", LONG, &LONG[..70], ""][i % 4]; check(output_recording::record_output_str(t).is_ok(), "recording works"); line.extend(t.bytes()); line.push(b'\n'); }
                4 => OUTPUT.with(|o| { let mut o = o.borrow_mut(); o.use_std_out(true); std = true; }),
                5 => OUTPUT.with(|o| { let mut o = o.borrow_mut(); o.use_std_out(false); std = false; }),
                6 => { same(&drained(), &buf, "the buffer holds what was recorded into it since it was last taken"); buf.clear(); }
                7 => OUTPUT.with(|o| { let mut o = o.borrow_mut(); o.write_newline(); check(o.flush().is_ok(), "flushing works"); line.push(b'\n'); }),
                _ => OUTPUT.with(|o| {
                    let mut d = [0u8; 4];
                    let n = o.borrow_mut().read(&mut d).unwrap();
                    check(n == buf.len().min(4), "reading gives what is there");
                    let part: Vec<u8> = buf.drain(..n).collect();
                    same(&d[..n], &part, "the buffer holds what was recorded into it since it was last taken");
                }),
            }
            if std { out.extend(line) } else { buf.extend(line) }
        }
        std::io::stdout().flush().unwrap();
        same(&captured(), &out, "standard output has what was recorded while it was chosen");
        same(&drained(), &buf, "the buffer holds what was recorded into it since it was last taken");
    }
    h_l15b {
        // every recording function writes where the others write
        let std = flag();
        let k = choice(12);
        let x = bits(3) as i64;
        capture();
        if std { OUTPUT.with(|o| o.borrow_mut().use_std_out(true)); } else { buffered(); }
        let q0 = null_mut();
        let want: String = match k {
            0 => { __quantum__rt__int_record_output(x, q0); format!("OUTPUT\tINT\t{x}\n") }
            1 => { __quantum__rt__double_record_output(1.5, q0); "OUTPUT\tDOUBLE\t1.5\n".into() }
            2 => { __quantum__rt__tuple_record_output(x, q0); format!("OUTPUT\tTUPLE\t{x}\n") }
            3 => { output_recording::legacy::__quantum__rt__int_record_output(x); format!("RESULT\t{x}\n") }
            4 => { output_recording::legacy::__quantum__rt__bool_record_output(x > 3); format!("RESULT\t{}\n", x > 3) }
            5 => { output_recording::legacy::__quantum__rt__double_record_output(1.5); "RESULT\t1.5\n".into() }
            6 => { output_recording::legacy::__quantum__rt__array_start_record_output(); output_recording::legacy::__quantum__rt__array_end_record_output(); "RESULT\tARRAY_START\nRESULT\tARRAY_END\n".into() }
            7 => { output_recording::legacy::__quantum__rt__tuple_start_record_output(); output_recording::legacy::__quantum__rt__tuple_end_record_output(); "RESULT\tTUPLE_START\nRESULT\tTUPLE_END\n".into() }
            8 => { __quantum__rt__write_result(x > 3, null_mut()); __quantum__rt__result_record_output(null_mut(), q0); format!("OUTPUT\tRESULT\t{}\n", (x > 3) as u8) }
            9 => { __quantum__rt__write_result(x > 3, null_mut()); legacy_output::__quantum__rt__result_record_output(null_mut()); format!("RESULT\t{}\n", (x > 3) as u8) }
            10 => { __quantum__qis__dumpmachine__body(null_mut()); "STATE\n|0000000000000000\u{27e9}\t1.0000+0.0000\u{1d456}\n".into() }
            _ => { __quantum__rt__message(&CString::new("hi").unwrap()); "INFO\thi\n".into() }
        };
        std::io::stdout().flush().unwrap();
        let (out, buf) = (captured(), drained());
        if k == 10 {
            // the text of states is another property
            check(out.is_empty() != std && buf.is_empty() == std, "every kind of output goes to the chosen place");
        } else {
            same(&out, if std { want.as_bytes() } else { b"" }, "every kind of output goes to the chosen place");
            same(&buf, if std { b"" } else { want.as_bytes() }, "every kind of output goes to the chosen place");
        }
    }
    h_l09a {
        let n = choice(8);
        let mut t = text(n);
        // what comes after the terminator does not belong to the string
        t.push(bits(8) as u8);
        t.push(0);
        let want = t[..n].to_vec();
        heap_mark();
        let s = __quantum__rt__string_create(t.as_mut_ptr().cast::<c_char>());
        for b in t[..n].iter_mut() { *b = 1; }
        is(s, &want, "a string keeps the bytes it was created from");
        let more = choice(3) as i32;
        __quantum__rt__string_update_reference_count(s, more);
        is(s, &want, "counting references changes nothing");
        __quantum__rt__string_update_reference_count(s, -more - 1);
        heap_check("nothing is left of a released string");
    }
    h_l09b {
        let (n, m) = (choice(5), choice(5));
        let mut a = text(n);
        let mut b = text(m);
        let own = flag();
        heap_mark();
        let s = __quantum__rt__string_create(a.as_mut_ptr().cast());
        let t = if own && n == m { s } else { __quantum__rt__string_create(b.as_mut_ptr().cast()) };
        if t == s { b = a.clone(); }
        let c = __quantum__rt__string_concatenate(s, t);
        let want: Vec<u8> = a[..n].iter().chain(&b[..m]).copied().collect();
        is(c, &want, "a concatenation is the first string followed by the second");
        is(s, &a[..n], "the first operand is left as it was");
        is(t, &b[..m], "the second operand is left as it was");
        let mut eq = n == m;
        for i in 0..n.min(m) { eq &= a[i] == b[i]; }
        check(__quantum__rt__string_equal(s, t) == eq, "strings are equal when their bytes are");
        check(__quantum__rt__string_equal(c, s) == (m == 0), "strings of different lengths are different");
        drop(want);
        gone(c);
        is(s, &a[..n], "an operand outlives the result");
        gone(s);
        if t != s { gone(t); }
        if t != s { heap_check("nothing is left of released strings"); }
    }
    h_l10a {
        let x = number();
        let s = __quantum__rt__int_to_string(x);
        is(s, format!("{x}").as_bytes(), "text of an integer");
        gone(s);
    }
    h_l10b {
        let k = choice(13);
        let x = if k < 12 { double_with(k) } else { [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e16, 1e300, -2.5, 5e-324, 123456789.25][choice(10)] };
        let s = __quantum__rt__double_to_string(x);
        is(s, dbl(x).as_bytes(), "text of a double");
        gone(s);
    }
    h_l10c {
        let k = choice(8);
        let s = match k {
            0 | 1 => __quantum__rt__bool_to_string(k == 1),
            2 => __quantum__rt__pauli_to_string(Pauli::I),
            3 => __quantum__rt__pauli_to_string(Pauli::X),
            4 => __quantum__rt__pauli_to_string(Pauli::Y),
            5 => __quantum__rt__pauli_to_string(Pauli::Z),
            6 => { __quantum__rt__result_to_string(__quantum__rt__result_get_zero()) }
            _ => { __quantum__rt__result_to_string(__quantum__rt__result_get_one()) }
        };
        is(s, ["false", "true", "PauliI", "PauliX", "PauliY", "PauliZ", "Zero", "One"][k].as_bytes(), "text of a constant");
        gone(s);
    }
    h_l10d {
        let k = choice(3);
        // one of the three is any number, the others are one of a few
        let few = || [0, 1, -1, 10, i64::MIN][choice(5)];
        let a = if k == 0 { int() } else { few() };
        let st = if k == 1 { int() } else { few() };
        let b = if k == 2 { int() } else { few() };
        let s = quantum__rt__range_to_string(Range { start: a, step: st, end: b });
        let want = if st == 1 { format!("{a}..{b}") } else { format!("{a}..{st}..{b}") };
        is(s, want.as_bytes(), "text of a range");
        gone(s);
    }
    h_l10e {
        let k = choice(4);
        let x = if k < 2 { let v = bits(9) as i64; if k == 0 { v } else { -v } } else { [0, 1, -1, 10, -10, 99, 100, 12345, i64::MAX, i64::MIN, 1 << 32, -(1 << 32), 1_000_000_000, 9_999_999_999, i64::MAX - 1, i64::MIN + 1][choice(8) + 8 * (k - 2)] };
        let b = __quantum__rt__bigint_create_i64(x);
        let s = __quantum__rt__bigint_to_string(b);
        is(s, format!("{x}").as_bytes(), "text of a big integer");
        gone(s);
        __quantum__rt__bigint_update_reference_count(b, -1);
    }
    h_l10f {
        let x = bits(if flag() { 8 } else { 64 });
        let s = __quantum__rt__qubit_to_string(x as usize as *mut c_void);
        is(s, format!("{x}").as_bytes(), "text of a qubit identifier");
        gone(s);
    }
    h_l11a {
        // one record or two in a row
        buffered();
        let mut want = vec![];
        let k = choice(5);
        let n = 1 + choice(2);
        let ks = [k, choice(5)];
        for i in 0..n {
            let k = if i == 0 { ks[0] } else { ks[1] };
            let tag = if n == 1 || thorough() { choice(4) } else { choice(3) };
            let mut t = if tag > 0 { text(tag - 1) } else { vec![0] };
            let p = if tag > 0 { t.as_mut_ptr().cast::<c_char>() } else { null_mut() };
            let body = match k {
                0 => { let x = if i == 0 { int() } else { [0, -7, 12][choice(3)] }; __quantum__rt__int_record_output(x, p); format!("OUTPUT\tINT\t{x}") }
                1 => { let x = if n == 1 { double_with([0, 5, 6, 7][choice(4)]) } else { [0.5, 3.0][choice(2)] }; __quantum__rt__double_record_output(x, p); format!("OUTPUT\tDOUBLE\t{}", dbl(x)) }
                2 => { let x = flag(); __quantum__rt__bool_record_output(x, p); format!("OUTPUT\tBOOL\t{x}") }
                3 => { let x = if i == 0 { int() } else { [0, -7, 12][choice(3)] }; __quantum__rt__array_record_output(x, p); format!("OUTPUT\tARRAY\t{x}") }
                _ => { let x = if i == 0 { int() } else { [0, -7, 12][choice(3)] }; __quantum__rt__tuple_record_output(x, p); format!("OUTPUT\tTUPLE\t{x}") }
            };
            want.extend_from_slice(body.as_bytes());
            if tag > 0 { want.push(b'\t'); want.extend_from_slice(&t[..tag - 1]); }
            want.push(b'\n');
        }
        same(&drained(), &want, "the recorded lines");
        check(drained().is_empty(), "drained output is gone");
    }
    h_l11b {
        buffered();
        let k = choice(7);
        let want = match k {
            0 => { legacy_array_start(); "RESULT\tARRAY_START\n".to_string() }
            1 => { legacy_array_end(); "RESULT\tARRAY_END\n".to_string() }
            2 => { legacy_tuple_start(); "RESULT\tTUPLE_START\n".to_string() }
            3 => { legacy_tuple_end(); "RESULT\tTUPLE_END\n".to_string() }
            4 => { let x = int(); output_recording::legacy::__quantum__rt__int_record_output(x); format!("RESULT\t{x}\n") }
            5 => { let x = double_with([0, 5, 6, 7][choice(4)]); output_recording::legacy::__quantum__rt__double_record_output(x); format!("RESULT\t{}\n", dbl(x)) }
            _ => { let x = flag(); output_recording::legacy::__quantum__rt__bool_record_output(x); format!("RESULT\t{x}\n") }
        };
        same(&drained(), want.as_bytes(), "the recorded line");
        let x = bits(5) as i64 - 16;
        let arr = flag();
        if arr { output_recording::legacy::__quantum__rt__array_record_output(x) } else { output_recording::legacy::__quantum__rt__tuple_record_output(x) }
        same(&drained(), format!("OUTPUT\t{}\t{x}\n", if arr { "ARRAY" } else { "TUPLE" }).as_bytes(), "the recorded line");
    }
    h_l11c {
        // a message is one line whatever it contains
        buffered();
        let n = choice(if thorough() { 4 } else { 3 });
        let t = ascii(n);
        let s = CString::from_vec_with_nul_unchecked(t.clone());
        if flag() { __quantum__rt__message(&s) } else { __quantum__rt__message_record_output(&s) }
        let got = drained();
        let mut want = b"INFO\t".to_vec();
        for b in &t[..n] {
            match *b {
                b'\t' => want.extend_from_slice(b"\\t"),
                b'\n' => want.extend_from_slice(b"\\n"),
                b'\r' => want.extend_from_slice(b"\\r"),
                b'\'' => want.extend_from_slice(b"\\'"),
                b'"' => want.extend_from_slice(b"\\\""),
                b'\\' => want.extend_from_slice(b"\\\\"),
                c if c >= 32 && c < 127 => want.push(c),
                c => { want.extend_from_slice(b"\\u{"); let h = c >> 4; let l = c & 15; if h > 0 { want.push(b'0' + h); } want.push(if l < 10 { b'0' + l } else { b'a' + l - 10 }); want.push(b'}'); }
            }
        }
        want.push(b'\n');
        same(&got, &want, "the line of a message");
        for b in &got[..got.len() - 1] { check(*b != b'\n' && *b != b'\r', "a message is one line"); }
    }
    h_l11d {
        // results, by static identifier or as managed values
        set_rng_seed(9);
        __quantum__rt__initialize(null_mut());
        buffered();
        let dynamic = flag();
        let legacy = flag();
        let tag = choice(3);
        let mut t = if tag > 0 { text(tag - 1) } else { vec![0] };
        let p = if tag > 0 { t.as_mut_ptr().cast::<c_char>() } else { null_mut() };
        let (r, b) = if dynamic {
            let one = flag();
            (if one { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() }, one)
        } else {
            let ids = [0usize, 1, 2, 64];
            let i = choice(4);
            let v = [bits(1) == 1, bits(1) == 1, bits(1) == 1];
            for j in 0..3 { __quantum__rt__write_result(v[j], ids[j] as *mut c_void); }
            (ids[i] as *mut c_void, i < 3 && v[i])
        };
        let mut want = if legacy { b"RESULT\t".to_vec() } else { b"OUTPUT\tRESULT\t".to_vec() };
        if legacy { legacy_output::__quantum__rt__result_record_output(r); } else { __quantum__rt__result_record_output(r, p); }
        want.push(if b { b'1' } else { b'0' });
        if !legacy && tag > 0 { want.push(b'\t'); want.extend_from_slice(&t[..tag - 1]); }
        want.push(b'\n');
        same(&drained(), &want, "the recorded result");
    }
    h_l11e {
        // a character outside ASCII in a message, between two others
        buffered();
        let k = choice(3);
        let cp = bits([11, 16, 21][k]) as u32;
        assume(cp >= [0x80, 0x800, 0x10000][k] && cp <= 0x10ffff && !(cp >= 0xd800 && cp < 0xe000));
        let c = |sh: u32| 0x80 | (cp >> sh & 0x3f) as u8;
        let mut t = vec![b'a'];
        match k {
            0 => t.extend_from_slice(&[0xc0 | (cp >> 6) as u8, c(0)]),
            1 => t.extend_from_slice(&[0xe0 | (cp >> 12) as u8, c(6), c(0)]),
            _ => t.extend_from_slice(&[0xf0 | (cp >> 18) as u8, c(12), c(6), c(0)]),
        }
        t.extend_from_slice(b"z\0");
        let s = CString::from_vec_with_nul_unchecked(t);
        if flag() { __quantum__rt__message(&s) } else { __quantum__rt__message_record_output(&s) }
        let mut want = b"INFO\ta\\u{".to_vec();
        let digits = if cp < 0x100 { 2 } else if cp < 0x1000 { 3 } else if cp < 0x10000 { 4 } else if cp < 0x100000 { 5 } else { 6 };
        for i in (0..digits).rev() { let d = (cp >> (4 * i) & 15) as u8; want.push(if d < 10 { b'0' + d } else { b'a' + d - 10 }); }
        want.extend_from_slice(b"}z\n");
        same(&drained(), &want, "the line of a message");
    }
    h_b06c {
        // recorded results are the results that are stored
        let ids = [0usize, 1, 2, 64];
        let legacy = choice(2) == 1;
        let r = |i: usize| i as *mut c_void;
        let mut m = [false; 4];
        __quantum__rt__initialize(null_mut());
        buffered();
        let rec = |i: usize, b: bool| {
            if legacy { legacy_output::__quantum__rt__result_record_output(r(ids[i])) } else { __quantum__rt__result_record_output(r(ids[i]), null_mut()) }
            let want = format!("{}RESULT\t{}\n", if legacy { "" } else { "OUTPUT\t" }, b as u8);
            same(&drained(), want.as_bytes(), "the recorded result is the stored one");
        };
        // nothing stored so far: a result is one of the two constants
        if choice(2) == 1 { let i = choice(2); rec(i, i == 1); }
        for _ in 0..2 {
            let (i, k) = (choice(4), choice(3));
            match k {
                0 => { let b = flag(); __quantum__rt__write_result(b, r(ids[i])); m[i] = b; }
                1 => { __quantum__qis__mz__body(r(0), r(ids[i])); m[i] = false; }
                _ => { __quantum__qis__x__body(r(1)); __quantum__qis__mresetz__body(r(1), r(ids[i])); m[i] = true; }
            }
            let j = choice(4);
            rec(j, m[j]);
        }
        for i in 0..4 { rec(i, m[i]); check(__quantum__rt__read_result(r(ids[i])) == m[i], "the value last stored, or false"); }
    }
    h_b09a {
        // the dump shows the results and the state that is there
        let k = choice(8);
        let perm = choice(3);
        let res = choice(4);
        let th = angle();
        let go = || {
            set_rng_seed(9);
            __quantum__rt__initialize(null_mut());
            let q = |i: usize| i as *mut c_void;
            __quantum__qis__ry__body(th, q(0));
            if k & 1 == 1 { __quantum__qis__h__body(q(2)); }
            if k & 2 == 2 { __quantum__qis__cnot__body(q(0), q(1)); }
            if k & 4 == 4 { __quantum__qis__rx__body(0.7, q(1)); __quantum__qis__x__body(q(0)); }
            match perm { 1 => __quantum__qis__swap__body(q(0), q(1)), 2 => { __quantum__qis__swap__body(q(0), q(2)); __quantum__qis__swap__body(q(1), q(2)); } _ => {} }
            if k & 1 == 1 { __quantum__qis__h__body(q(1)); }
        };
        go();
        let (st, _) = capture_quantum_state();
        go();
        let mut want = String::new();
        let ids = [0, 1, 3];
        if res > 0 {
            let v: Vec<bool> = (0..ids[res - 1] + 1).map(|i| flag()).collect();
            for (i, b) in v.iter().enumerate() { __quantum__rt__write_result(*b, i as *mut c_void); }
            write!(want, "Global Results: [").unwrap();
            for (i, b) in v.iter().enumerate() { write!(want, "{}{}", if i > 0 { ", " } else { "" }, *b as u8).unwrap(); }
            want.push_str("]\n");
        }
        want.push_str("STATE: [ ");
        for (key, a) in &st { write!(want, "|{key}\u{27e9}: {a}, ").unwrap(); }
        want.push_str("]\n");
        buffered();
        __quantum__qis__dumpmachine__body(null_mut());
        same(&drained(), want.as_bytes(), "the dump of the machine");
        let (after, n) = capture_quantum_state();
        check(after.len() == st.len(), "a dump leaves the state as it was");
        for (x, y) in st.iter().zip(&after) { check(x.0 == y.0, "a dump leaves the state as it was"); near(x.1.re, y.1.re, 1e-9, "a dump leaves the state as it was"); near(x.1.im, y.1.im, 1e-9, "a dump leaves the state as it was"); }
    }
    h_l14a {
        // memory for the program: zeroed, as large as asked for, and its own
        let (n, m) = (choice(20), choice(20));
        let a = __quantum__rt__memory_allocate(n as u64);
        let b = __quantum__rt__memory_allocate(m as u64);
        for i in 0..n { check(*a.add(i) == 0, "allocated memory is zero"); *a.add(i) = 0xff; }
        for i in 0..m { check(*b.add(i) == 0, "allocated memory is zero"); *b.add(i) = bits(8) as u8; }
        for i in 0..n { check(*a.add(i) == 0xff, "blocks of memory do not overlap"); }
        let c = __quantum__rt__memory_allocate(n as u64);
        for i in 0..n { check(*c.add(i) == 0, "allocated memory is zero"); check(*a.add(i) == 0xff, "blocks of memory do not overlap"); }
    }
}
fn legacy_array_start() { output_recording::legacy::__quantum__rt__array_start_record_output() }
fn legacy_array_end() { output_recording::legacy::__quantum__rt__array_end_record_output() }
fn legacy_tuple_start() { output_recording::legacy::__quantum__rt__tuple_start_record_output() }
fn legacy_tuple_end() { output_recording::legacy::__quantum__rt__tuple_end_record_output() }
