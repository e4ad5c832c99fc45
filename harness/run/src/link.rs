//! The runner: linking, entry points, shots, input. LLVM itself is a stand-in (shim/inkwell).
use inkwell::{Fun, World, reset, world};
use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::ffi::{CString, c_void};
use std::io::Read;
use std::ptr::null_mut;
use sym::*;
use super::runner;

macro_rules! unders { (0) => { unsafe extern "C" fn() -> _ }; (1) => { unsafe extern "C" fn(_) -> _ }; (2) => { unsafe extern "C" fn(_, _) -> _ }; (3) => { unsafe extern "C" fn(_, _, _) -> _ }; (6) => { unsafe extern "C" fn(_, _, _, _, _, _) -> _ }; }
macro_rules! addr { ($f:path, $n:tt) => {{ let f: unders!($n) = $f; f as *const () as usize }} }
// every runtime function with the number of its parameters, which the compiler checks against its definition
macro_rules! table { ($($f:ident $n:tt)*) => { const NAMES: &[(&str, usize)] = &[$((stringify!($f), $n)),*]; fn address(i: usize) -> usize { let mut k = 0; $( if k == i { return addr!($f, $n); } k += 1; )* 0 } } }
table! {
    __quantum__rt__initialize 1
    __quantum__qis__arccos__body 1
    __quantum__qis__arcsin__body 1
    __quantum__qis__arctan__body 1
    __quantum__qis__arctan2__body 2
    __quantum__qis__assertmeasurementprobability__body 6
    __quantum__qis__assertmeasurementprobability__ctl 2
    __quantum__qis__barrier__body 0
    __quantum__qis__ccx__body 3
    __quantum__qis__cnot__body 2
    __quantum__qis__cos__body 1
    __quantum__qis__cosh__body 1
    __quantum__qis__cx__body 2
    __quantum__qis__cy__body 2
    __quantum__qis__cz__body 2
    __quantum__qis__drawrandomdouble__body 2
    __quantum__qis__drawrandomint__body 2
    __quantum__qis__dumpmachine__body 1
    __quantum__qis__exp__body 3
    __quantum__qis__exp__adj 3
    __quantum__qis__exp__ctl 2
    __quantum__qis__exp__ctladj 2
    __quantum__qis__h__body 1
    __quantum__qis__h__ctl 2
    __quantum__qis__ieeeremainder__body 2
    __quantum__qis__infinity__body 0
    __quantum__qis__isinf__body 1
    __quantum__qis__isnan__body 1
    __quantum__qis__isnegativeinfinity__body 1
    __quantum__qis__log__body 1
    __quantum__qis__measure__body 2
    __quantum__qis__mresetz__body 2
    __quantum__qis__mz__body 2
    __quantum__qis__nan__body 0
    __quantum__qis__r__adj 3
    __quantum__qis__r__body 3
    __quantum__qis__r__ctl 2
    __quantum__qis__r__ctladj 2
    __quantum__qis__read_result__body 1
    __quantum__qis__reset__body 1
    __quantum__qis__rx__body 2
    __quantum__qis__rx__ctl 2
    __quantum__qis__rxx__body 3
    __quantum__qis__ry__body 2
    __quantum__qis__ry__ctl 2
    __quantum__qis__ryy__body 3
    __quantum__qis__rz__body 2
    __quantum__qis__rz__ctl 2
    __quantum__qis__rzz__body 3
    __quantum__qis__s__adj 1
    __quantum__qis__s__body 1
    __quantum__qis__s__ctl 2
    __quantum__qis__s__ctladj 2
    __quantum__qis__sx__body 1
    __quantum__qis__sin__body 1
    __quantum__qis__sinh__body 1
    __quantum__qis__sqrt__body 1
    __quantum__qis__swap__body 2
    __quantum__qis__t__adj 1
    __quantum__qis__t__body 1
    __quantum__qis__t__ctl 2
    __quantum__qis__t__ctladj 2
    __quantum__qis__tan__body 1
    __quantum__qis__tanh__body 1
    __quantum__qis__x__body 1
    __quantum__qis__x__ctl 2
    __quantum__qis__y__body 1
    __quantum__qis__y__ctl 2
    __quantum__qis__z__body 1
    __quantum__qis__z__ctl 2
    __quantum__rt__array_concatenate 2
    __quantum__rt__array_copy 2
    __quantum__rt__array_create_1d 2
    __quantum__rt__array_record_output 2
    __quantum__rt__tuple_record_output 2
    __quantum__rt__array_get_element_ptr_1d 2
    __quantum__rt__array_get_size_1d 1
    quantum__rt__array_slice_1d 2
    __quantum__rt__array_update_alias_count 2
    __quantum__rt__array_update_reference_count 2
    __quantum__rt__bigint_add 2
    __quantum__rt__bigint_bitand 2
    __quantum__rt__bigint_bitnot 1
    __quantum__rt__bigint_bitor 2
    __quantum__rt__bigint_bitxor 2
    __quantum__rt__bigint_create_array 2
    __quantum__rt__bigint_create_i64 1
    __quantum__rt__bigint_divide 2
    __quantum__rt__bigint_equal 2
    __quantum__rt__bigint_get_data 1
    __quantum__rt__bigint_get_length 1
    __quantum__rt__bigint_greater 2
    __quantum__rt__bigint_greater_eq 2
    __quantum__rt__bigint_modulus 2
    __quantum__rt__bigint_multiply 2
    __quantum__rt__bigint_negate 1
    __quantum__rt__bigint_power 2
    __quantum__rt__bigint_shiftleft 2
    __quantum__rt__bigint_shiftright 2
    __quantum__rt__bigint_subtract 2
    __quantum__rt__bigint_to_string 1
    __quantum__rt__bigint_update_reference_count 2
    __quantum__rt__bool_to_string 1
    __quantum__rt__callable_copy 2
    __quantum__rt__callable_create 3
    __quantum__rt__callable_invoke 3
    __quantum__rt__callable_make_adjoint 1
    __quantum__rt__callable_make_controlled 1
    __quantum__rt__callable_update_alias_count 2
    __quantum__rt__callable_update_reference_count 2
    __quantum__rt__capture_update_alias_count 2
    __quantum__rt__capture_update_reference_count 2
    __quantum__rt__double_to_string 1
    __quantum__rt__fail 1
    __quantum__rt__int_to_string 1
    __quantum__rt__memory_allocate 1
    __quantum__rt__message 1
    __quantum__rt__pauli_to_string 1
    __quantum__rt__qubit_allocate 0
    __quantum__rt__qubit_allocate_array 1
    __quantum__rt__qubit_release 1
    __quantum__rt__qubit_release_array 1
    __quantum__rt__qubit_to_string 1
    __quantum__rt__read_result 1
    __quantum__rt__result_equal 2
    quantum__rt__range_to_string 1
    __quantum__rt__result_get_one 0
    __quantum__rt__result_get_zero 0
    __quantum__rt__result_to_string 1
    __quantum__rt__result_update_reference_count 2
    __quantum__rt__string_concatenate 2
    __quantum__rt__string_create 1
    __quantum__rt__string_equal 2
    __quantum__rt__string_get_data 1
    __quantum__rt__string_get_length 1
    __quantum__rt__string_update_reference_count 2
    __quantum__rt__tuple_copy 2
    __quantum__rt__tuple_create 1
    __quantum__rt__tuple_update_alias_count 2
    __quantum__rt__tuple_update_reference_count 2
    __quantum__rt__write_result 2
}
// functions whose implementation depends on the number of parameters: (name, old form: parameters, new form: parameters)
const FORMS: &[&str] = &["__quantum__rt__bool_record_output", "__quantum__rt__double_record_output", "__quantum__rt__int_record_output", "__quantum__rt__result_record_output"];
const OLD: &[&str] = &["__quantum__rt__array_end_record_output", "__quantum__rt__array_start_record_output", "__quantum__rt__tuple_end_record_output", "__quantum__rt__tuple_start_record_output"];
fn form(i: usize, old: bool) -> usize { use qir_backend::output_recording::legacy as l; match (i, old) {
    (0, true) => addr!(l::__quantum__rt__bool_record_output, 1),
    (1, true) => addr!(l::__quantum__rt__double_record_output, 1),
    (2, true) => addr!(l::__quantum__rt__int_record_output, 1),
    (3, true) => addr!(qir_backend::legacy_output::__quantum__rt__result_record_output, 1),
    (0, _) => addr!(__quantum__rt__bool_record_output, 2),
    (1, _) => addr!(__quantum__rt__double_record_output, 2),
    (2, _) => addr!(__quantum__rt__int_record_output, 2),
    _ => addr!(__quantum__rt__result_record_output, 2),
} }
fn old(i: usize) -> usize { use qir_backend::output_recording::legacy as l; match i {
    0 => addr!(l::__quantum__rt__array_end_record_output, 0),
    1 => addr!(l::__quantum__rt__array_start_record_output, 0),
    2 => addr!(l::__quantum__rt__tuple_end_record_output, 0),
    _ => addr!(l::__quantum__rt__tuple_start_record_output, 0),
} }
const OTHER: &[&str] = &["__quantum__qis__unknown__body", "main", "__quantum__qis__h__ctladj", "h", "llvmx"];

/// a declaration: what it may be linked to, given its number of parameters
#[derive(Clone, Copy)]
enum Decl { Plain(usize), Form(usize), Old(usize), M, Unknown(usize), Intrinsic }
impl Decl {
    fn count() -> usize { NAMES.len() + 4 + 4 + 1 + OTHER.len() + 1 }
    fn pick(k: usize) -> Decl {
        let mut i = k;
        if i < NAMES.len() { return Decl::Plain(i); } i -= NAMES.len();
        if i < 4 { return Decl::Form(i); } i -= 4;
        if i < 4 { return Decl::Old(i); } i -= 4;
        if i < 1 { return Decl::M; } i -= 1;
        if i < OTHER.len() { return Decl::Unknown(i); }
        Decl::Intrinsic
    }
    fn name(&self) -> &'static str { match *self { Decl::Plain(i) => NAMES[i].0, Decl::Form(i) => FORMS[i], Decl::Old(i) => OLD[i], Decl::M => "__quantum__qis__m__body", Decl::Unknown(i) => OTHER[i], Decl::Intrinsic => "llvm.dbg.value" } }
    /// where it has to go (None: the program has to be refused; Some(0): nowhere, LLVM provides it), and whether that is recording of the old or the new kind
    fn target(&self, n: usize) -> (Option<usize>, Option<bool>) { match *self {
        Decl::Plain(i) => (if n == wanted(i) { Some(address(i)) } else { None }, None),
        Decl::Form(i) => if n == 1 { (Some(form(i, true)), Some(true)) } else if n == 2 { (Some(form(i, false)), Some(false)) } else { (None, None) },
        Decl::Old(i) => if n == 0 { (Some(old(i)), Some(true)) } else { (None, None) },
        Decl::M => (if n == 1 { Some(addr!(qir_backend::__quantum__qis__m__body, 1)) } else if n == 2 { Some(addr!(qir_backend::__quantum__qis__mz__body, 2)) } else { None }, None),
        Decl::Unknown(_) => (None, None),
        Decl::Intrinsic => (Some(0), None),
    } }
}
// QIR declares a third parameter (force a copy) of array_slice_1d that the implementation does not need
fn wanted(i: usize) -> usize { NAMES[i].1 + (NAMES[i].0 == "quantum__rt__array_slice_1d") as usize }
fn c(s: &str) -> CString { CString::new(s).unwrap() }
fn declare(w: &mut World, n: &str, params: usize) { w.functions.push(Fun { name: c(n), params, blocks: 0, attrs: vec![] }) }
fn define(w: &mut World, n: &str, params: usize, attr: &[(&str, &str)]) { w.functions.push(Fun { name: c(n), params, blocks: 1, attrs: attr.iter().map(|a| (c(a.0), c(a.1))).collect() }) }
fn go(name: Option<&str>, shots: u32, seed: Option<u64>) -> (Result<(), String>, Vec<u8>) {
    let mut out = vec![];
    let r = runner::run_bytes(b"source", name, shots, seed, &mut out);
    (r, out)
}
fn same(a: &[u8], b: &[u8], id: &str) { check(a.len() == b.len(), id); for (x, y) in a.iter().zip(b) { check(*x == *y, id); } }
fn params() -> usize { bits(32) as usize }

/// what linking the given declarations has to give
unsafe fn linked(ds: &[(Decl, usize)], r: &Result<(), String>, first: usize, out: &[u8]) {
    let w = world();
    let (mut ok, mut kinds) = (true, [false, false]);
    for (d, n) in ds {
        let (t, k) = d.target(*n);
        ok &= t.is_some();
        if let Some(k) = k { kinds[k as usize] = true; }
    }
    let fine = ok && !(kinds[0] && kinds[1]);
    check(r.is_ok() == fine, "a program runs exactly when everything it declares can be linked");
    if fine {
        for (i, (d, n)) in ds.iter().enumerate() {
            let t = d.target(*n).0.unwrap();
            let mut k = 0;
            for m in w.mapped.iter() { if m.0 == first + i { k += 1; check(m.1 == t, "a declaration is linked to the function it names"); } }
            check(k == (t != 0) as usize, "a declaration is linked once");
        }
        check(w.runs.len() == 1, "the entry point runs");
    } else {
        check(w.runs.is_empty() && out.is_empty(), "nothing runs when linking fails");
        if !ok && !(kinds[0] && kinds[1]) { let e = r.as_ref().unwrap_err(); let mut named = false; for (d, n) in ds { if d.target(*n).0.is_none() { named |= e.contains(d.name()); } } check(named, "the message names a function that cannot be linked"); }
    }
    for m in w.mapped.iter() { check(m.0 >= first && m.0 < first + ds.len(), "only declarations are linked"); }
}

entries! {
    h_r01a {
        let k = choice(Decl::count());
        let w = reset();
        let d = Decl::pick(k);
        let n = params();
        declare(w, d.name(), n);
        define(w, "entry", 0, &[("entry_point", "")]);
        let (r, out) = go(None, 1, None);
        linked(&[(d, n)], &r, 0, &out);
    }
    h_r01b {
        // two different functions out of those that record output and some others
        let pool: [Decl; 13] = [Decl::Form(0), Decl::Form(1), Decl::Form(2), Decl::Form(3), Decl::Old(0), Decl::Old(1), Decl::Old(2), Decl::Old(3), Decl::M, Decl::Plain(20), Decl::Unknown(0), Decl::Unknown(3), Decl::Intrinsic];
        let i = choice(13);
        let j = choice(13);
        assume(i != j);
        let w = reset();
        define(w, "__quantum__qis__x__body", 1, &[]);
        define(w, "entry", 0, &[("EntryPoint", "x")]);
        let (n, m) = (params(), params());
        declare(w, pool[i].name(), n);
        declare(w, pool[j].name(), m);
        let (r, out) = go(None, 1, None);
        linked(&[(pool[i], n), (pool[j], m)], &r, 2, &out);
    }
    h_r01c {
        // three that record output
        let k = choice(56);
        let (mut i, mut j, mut l, mut c) = (0, 1, 2, 0);
        while c < k { l += 1; if l == 8 { j += 1; l = j + 1; if l == 8 { i += 1; j = i + 1; l = j + 1; } } c += 1; }
        let pool: [Decl; 8] = [Decl::Form(0), Decl::Form(1), Decl::Form(2), Decl::Form(3), Decl::Old(0), Decl::Old(1), Decl::Old(2), Decl::Old(3)];
        let w = reset();
        let n = || bits(2) as usize;
        let ds = [(pool[i], n()), (pool[j], n()), (pool[l], n())];
        for d in ds { declare(w, d.0.name(), d.1); }
        define(w, "entry", 0, &[("entry_point", "")]);
        let (r, out) = go(None, 1, None);
        linked(&ds, &r, 0, &out);
    }
    h_r02a {
        // three functions of any names, attributes and numbers of parameters; a name may be asked for
        let w = reset();
        let mut marked = [false; 3];
        let sh = choice(9);
        let nf = sh.min(3);
        for i in 0..nf {
            let k = if nf == 3 && i == 0 { (sh - 3) / 2 } else if nf == 3 && !thorough() { choice(if i == 1 { 2 } else { 3 }) } else { choice(5) };
            let attrs: &[(&str, &str)] = [&[][..], &[("entry_point", "")], &[("EntryPoint", "")], &[("entrypoint", ""), ("entry_points", "entry_point")], &[("a", "b"), ("entry_point", "c")]][k];
            marked[i] = k == 1 || k == 2 || k == 4;
            let name = symtext(if nf > 1 && !thorough() { 1 } else { 2 });
            define(w, "", params(), attrs);
            w.functions[i].name = CString::from_vec_unchecked(name);
        }
        for i in 0..nf { for j in 0..i { assume(w.functions[i].name != w.functions[j].name); } }
        let asked = if nf == 3 { 1 + 2 * ((sh - 3) & 1) } else if nf > 1 && !thorough() { 1 + 2 * choice(2) } else { choice(4) };
        let ask = if asked < 3 { let mut t = symtext(asked); for b in &t { assume(*b < 128); } Some(String::from_utf8_unchecked(t)) } else { None };
        let (mut n, mut which) = (0, 0);
        for i in 0..nf {
            let m = match &ask { Some(a) => a.as_bytes() == w.functions[i].name.as_bytes(), None => true };
            if marked[i] && m { n += 1; which = i; }
        }
        let (r, out) = go(ask.as_deref(), 1, None);
        let w = world();
        let fine = n == 1 && w.functions[which].params as u32 == 0;
        check(r.is_ok() == fine, "a program runs exactly when it has one matching entry point without parameters");
        if fine { check(w.runs.len() == 1 && w.runs[0].0 == which && w.runs[0].1 == 0, "the function that runs is the matching entry point"); } else { check(w.runs.is_empty(), "nothing runs without a unique entry point"); }
        if n != 1 { check(out.is_empty(), "nothing is written without a unique entry point"); }
    }
    h_r02b {
        // whatever fails before the program runs is an error, and nothing runs
        let w = reset();
        define(w, "entry", 0, &[("entry_point", "")]);
        let f: [bool; 7] = [bits(1) == 1, bits(1) == 1, bits(1) == 1, bits(1) == 1, bits(1) == 1, bits(1) == 1, bits(1) == 1];
        (w.bad_text, w.bad_module, w.bad_target, w.bad_asm, w.bad_machine, w.bad_passes, w.bad_engine) = (f[0], f[1], f[2], f[3], f[4], f[5], f[6]);
        let bad = f[0] | f[1] | f[2] | f[3] | f[4] | f[5] | f[6];
        let (r, out) = go(None, 2, None);
        check(r.is_err() == bad, "a program that cannot be prepared is refused");
        if bad { check(world().runs.is_empty() && out.is_empty(), "nothing runs and nothing is written when the program cannot be prepared"); }
    }
    h_r03a {
        // shots, their metadata and their records; a fresh environment for each
        let shots = choice(4);
        let na = choice(3);
        let w = reset();
        define(w, "other", 0, &[("x", "y")]);
        define(w, "entry", 0, &[]);
        let mut meta = vec![];
        for i in 0..na {
            let (a, b) = (ascii(1 + choice(2)), ascii(choice(3)));
            meta.extend_from_slice(b"METADATA\t"); meta.extend_from_slice(&a);
            if !b.is_empty() { meta.push(b'\t'); meta.extend_from_slice(&b); }
            meta.push(b'\n');
            w.functions[1].attrs.push((CString::from_vec_unchecked(a), CString::from_vec_unchecked(b)));
        }
        let own = na > 0;
        w.functions[1].attrs.push((c("entry_point"), c("")));
        meta.extend_from_slice(b"METADATA\tentry_point\n");
        buffered();
        RECORDS = Some([0; 3].map(|_| ascii(choice(3))));
        w.hook = Some(shot);
        let (r, out) = go(if own { None } else { Some("entry") }, shots as u32, None);
        check(r.is_ok(), "a program with one entry point runs");
        check(world().runs.len() == shots, "the entry point runs once for each shot");
        for x in world().runs.iter() { check(x.0 == 1, "the entry point runs once for each shot"); }
        let mut want = vec![];
        for i in 0..shots {
            want.extend_from_slice(b"START\n"); want.extend_from_slice(&meta);
            want.extend_from_slice(b"OUTPUT\tBOOL\ttrue\t"); want.extend_from_slice(&RECORDS.as_ref().unwrap()[i]); want.push(b'\n');
            want.extend_from_slice(b"END\t0\n");
        }
        same(&out, &want, "the output of a run");
    }
    h_r03b {
        // each shot starts clean, and the random stream of the seed goes on from shot to shot
        let w = reset();
        define(w, "entry", 0, &[("entry_point", "")]);
        w.hook = Some(program);
        let seed = bits(64);
        let before = choice(3);
        // leftovers of an earlier use of the library
        if before > 0 { set_rng_seed(bits(64)); __quantum__rt__initialize(null_mut()); __quantum__qis__h__body(null_mut()); __quantum__rt__write_result(true, 1 as *mut i8 as *mut _); if before == 2 { __quantum__qis__mz__body(null_mut(), null_mut()); } }
        let shots = 1 + choice(2);
        buffered();
        DONE = 0;
        let (r, out) = go(None, shots as u32, Some(seed));
        check(r.is_ok() && DONE == shots, "the entry point runs once for each shot");
        let mut want = vec![];
        for i in 0..shots {
            want.extend_from_slice(b"START\nMETADATA\tentry_point\n");
            for k in 0..2 {
                let s = sample(seed, 2 * i as u64 + k + 1);
                let one = if s < 0.49999 { true } else if s > 0.50001 { false } else { return };
                want.extend_from_slice(b"OUTPUT\tRESULT\t"); want.push(if one { b'1' } else { b'0' }); want.push(b'\n');
            }
            want.extend_from_slice(b"END\t0\n");
        }
        same(&out, &want, "the outcomes follow the stream of the seed");
    }
    h_r04a {
        // bytes reach the parser as they are
        let n = choice(8);
        let mut t: Vec<u8> = (0..n).map(|_| bits(8) as u8).collect();
        let w = reset();
        define(w, "entry", 0, &[("entry_point", "")]);
        let mut out = vec![];
        let how = choice(4);
        let r = match how {
            0 => runner::run_bytes(&t, None, 1, None, &mut out),
            1 => runner::run_bitcode(&t, None, 1, &mut out),
            2 => runner::run_input(&mut Chunks { data: t.clone(), at: 0, step: 1 + choice(3), fail: usize::MAX }, None, 1, None, &mut out),
            _ => { let at = choice(n + 1); let r = runner::run_input(&mut Chunks { data: t.clone(), at: 0, step: 2, fail: at }, None, 1, None, &mut out); check(r.is_err() && world().parsed.is_empty() && world().runs.is_empty() && out.is_empty(), "input that cannot be read is refused"); return; }
        };
        let w = world();
        check(r.is_ok() == (n >= 4), "input of less than four bytes is refused");
        if n < 4 { check(w.parsed.is_empty() && w.runs.is_empty() && out.is_empty(), "input of less than four bytes is refused"); return; }
        check(w.parsed.len() == 1, "the input is parsed once");
        same(&w.parsed[0].0, &t, "the parser is given the input");
        check(w.parsed[0].1 == 0, "text given to the parser is terminated");
        check(w.runs.len() == 1, "the program runs");
    }
    h_r04b {
        // the extension decides how a file is read
        let n = choice(4);
        let e = ascii(n);
        for b in &e { assume(*b != b'.' && *b != b'/'); }
        let dot = flag();
        let mut path = b"dir.ll/a.bc".to_vec();
        if dot { path.push(b'.'); }
        path.extend_from_slice(&e);
        let w = reset();
        define(w, "entry", 0, &[("entry_point", "")]);
        w.bad_file = flag();
        let mut out = vec![];
        let p = String::from_utf8_unchecked(path.clone());
        let r = runner::run_file(&p, None, 1, None, &mut out);
        let w = world();
        let (ll, bc) = (dot && e == b"ll", dot && e == b"bc" || !dot && n == 0);
        check(r.is_ok() == ((ll || bc) && !w.bad_file), "files other than .ll and .bc are refused");
        if ll || bc { check(w.files.len() == 1, "a file is read once"); same(w.files[0].0.as_bytes(), &path, "the file that is read is the one asked for"); check(w.files[0].1 == bc, "bitcode and text are read as such"); } else { check(w.files.is_empty(), "no other file is read"); }
        check(w.runs.len() == r.is_ok() as usize && (r.is_ok() || out.is_empty()), "the program runs when it could be read");
    }
    h_r05a {
        // options of the command line, in any order and spelling
        let w = reset();
        define(w, "other", 0, &[("entry_point", "")]);
        define(w, "go", 0, &[("entry_point", "")]);
        w.hook = Some(toss);
        TOSS = 0;
        buffered();
        let how = choice(4);
        let order = choice(3);
        let (es, fs) = ([None, Some("go"), Some("other"), Some("zz")], [Some("p.bc"), Some("d/q.ll"), Some("p.txt")]);
        let e = es[choice(4)];
        let f = fs[choice(3)];
        // shots: absent, one or two digits, or something that is not a number of shots
        let ns = if f == fs[0] { choice(9) } else { choice(2) };
        let (a, b) = (bits(4) as u8, bits(4) as u8);
        assume(a <= 1 && b < 10);
        let (shots, n): (Option<String>, Option<usize>) = match ns {
            0 => (None, Some(1)),
            1 => (Some(String::from_utf8_unchecked(vec![b'0' + b])), Some(b as usize)),
            2 => (Some(String::from_utf8_unchecked(vec![b'0' + a, b'0' + b])), Some(a as usize * 10 + b as usize)),
            3 => { let c = bits(7) as u8; assume(c != 0 && c != b'-' && c != b'=' && !c.is_ascii_digit()); (Some(String::from_utf8_unchecked(vec![c])), None) }
            k => (Some(["4294967296", "1x", "0x1", "1.0", "x1"][k - 4].to_string()), None),
        };
        let seeds: [(Option<&str>, Option<Option<u64>>); 6] = [(None, Some(None)), (Some("0"), Some(Some(0))), (Some("42"), Some(Some(42))), (Some("18446744073709551615"), Some(Some(u64::MAX))), (Some("18446744073709551616"), None), (Some("z"), None)];
        let (r, seed) = seeds[if e == es[1] && ns < 2 { choice(6) } else { choice(2) }];
        let mut v: Vec<String> = vec!["qir-runner".to_string()];
        let all: [(&str, &str, Option<&str>); 4] = [("e", "entrypoint", e), ("f", "file", f), ("s", "shots", shots.as_deref()), ("r", "rngseed", r)];
        for k in 0..4 {
            let (s, l, x) = all[[[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]][order][k]];
            if let Some(x) = x { match how { 0 => { v.push(format!("-{s}")); v.push(x.to_string()); } 1 => { v.push(format!("--{l}")); v.push(x.to_string()); } 2 => v.push(format!("--{l}={x}")), _ => v.push(format!("-{s}{x}")) } }
        }
        let res = runner::main(Some(v));
        let w = world();
        let read = n.is_some() && seed.is_some();
        let fine = read && f != fs[2] && (e == es[1] || e == es[2]);
        check(res.is_ok() == fine, "the command line runs a program exactly when its options make sense");
        if read && f != fs[2] { check(w.files.len() == 1 && w.files[0].0 == f.unwrap() && w.files[0].1 == (f == fs[0]), "the file that is read is the one asked for"); } else { check(w.files.is_empty(), "no other file is read"); }
        if fine {
            check(w.runs.len() == n.unwrap(), "the program runs as often as asked");
            for x in w.runs.iter() { check(x.0 == (e == es[1]) as usize, "the function that runs is the one asked for"); }
            if let Some(Some(sd)) = seed { for i in 0..n.unwrap().min(2) { let s = sample(sd, i as u64 + 1); if s < 0.49999 { check(TOSS >> i & 1 == 1, "the random stream is that of the seed asked for"); } else if s > 0.50001 { check(TOSS >> i & 1 == 0, "the random stream is that of the seed asked for"); } } }
        } else { check(w.runs.is_empty(), "nothing runs when the options make no sense"); }
    }
    h_r05c {
        // no file or "-" is the standard input; only "-" is
        let n = [0, 4, 7][choice(3)];
        let t: Vec<u8> = (0..n).map(|_| bits(8) as u8).collect();
        let w = reset();
        define(w, "other", 0, &[("entry_point", "")]);
        define(w, "go", 0, &[("entry_point", "")]);
        w.hook = Some(toss);
        TOSS = 0;
        buffered();
        let f = [None, Some("-"), Some("-.bc"), Some("--.ll"), Some("./-.bc"), Some("d/-")][choice(6)];
        let e = ["go", "other", "zz"][choice(3)];
        let (r, seed) = [(None, None), (Some("0"), Some(0)), (Some("7"), Some(7u64)), (Some("18446744073709551615"), Some(u64::MAX))][choice(4)];
        let shots = choice(3);
        stdin(&t);
        let mut v: Vec<String> = vec!["qir-runner".to_string(), format!("--entrypoint={e}"), format!("-s{shots}")];
        if let Some(r) = r { v.push(format!("--rngseed={r}")); }
        if let Some(f) = f { v.push(format!("--file={f}")); }
        let res = runner::main(Some(v));
        let w = world();
        let file = f.is_some_and(|f| f != "-");
        let known = f != Some("d/-");
        let read = if file { known } else { n > 0 };
        let fine = read && e != "zz";
        check(res.is_ok() == fine, "the command line runs a program exactly when its options make sense");
        if file { check(w.files.len() == known as usize && (!known || w.files[0].0 == f.unwrap()), "the file that is read is the one asked for"); check(w.parsed.is_empty(), "the standard input is read when no file is named"); }
        else { check(w.files.is_empty(), "no other file is read"); check(w.parsed.len() == (n > 0) as usize, "the standard input is read when no file is named"); if n > 0 { same(&w.parsed[0].0, &t, "the parser is given the standard input"); } }
        if fine {
            check(w.runs.len() == shots, "the program runs as often as asked");
            for x in w.runs.iter() { check(x.0 == (e == "go") as usize, "the function that runs is the one asked for"); }
            if let Some(sd) = seed { for i in 0..shots { let s = sample(sd, i as u64 + 1); if s < 0.49999 { check(TOSS >> i & 1 == 1, "the random stream is that of the seed asked for"); } else if s > 0.50001 { check(TOSS >> i & 1 == 0, "the random stream is that of the seed asked for"); } } }
        } else { check(w.runs.is_empty(), "nothing runs when the options make no sense"); }
    }
    h_r05b {
        // what is not understood runs nothing; the version runs nothing
        let w = reset();
        define(w, "go", 0, &[("entry_point", "")]);
        buffered();
        let args: [(&[&str], bool); 12] = [(&["-V"], true), (&["--version"], true), (&["-f"], false), (&["--shots"], false), (&["-x"], false), (&["--sh"], false), (&["extra"], false), (&["-f", "a.bc", "-f", "b.bc"], false), (&["-s", "1", "--shots=2"], false), (&["-e", "go", "extra"], false), (&["-f", "a.bc", "-q"], false), (&["-f", "a.bc", "--rngseed"], false)];
        let k = choice(12);
        let mut v = vec!["qir-runner"];
        v.extend_from_slice(args[k].0);
        let res = runner::main(Some(v));
        check(res.is_ok() == args[k].1, "what the command line does not understand is an error");
        check(world().runs.is_empty() && world().files.is_empty(), "nothing runs");
    }
}
fn buffered() { qir_backend::output_recording::OUTPUT.with(|o| o.borrow_mut().use_std_out(false)); }
/// n symbolic bytes other than NUL
fn symtext(n: usize) -> Vec<u8> { (0..n).map(|_| { let b = bits(8) as u8; assume(b != 0); b }).collect() }
fn ascii(n: usize) -> Vec<u8> { (0..n).map(|_| { let b = bits(7) as u8; assume(b != 0); b }).collect() }
static mut RECORDS: Option<[Vec<u8>; 3]> = None;
static mut DONE: usize = 0;
/// what a shot of h_r03a does: record something of its own, leave a mess
fn shot(_: usize) { unsafe {
    let i = world().runs.len() - 1;
    let (s, n) = capture_quantum_state();
    check(n == 0 && s.len() == 1, "a shot starts without qubits");
    for k in 0..3 { check(!__quantum__rt__read_result(k as *mut _), "a shot starts without results"); }
    let mut t = RECORDS.as_ref().unwrap()[i].clone();
    t.push(0);
    __quantum__rt__bool_record_output(true, t.as_mut_ptr().cast());
    if i == 0 { __quantum__qis__x__body(null_mut()); __quantum__rt__write_result(true, 1 as *mut _); } else { __quantum__rt__qubit_allocate(); __quantum__rt__write_result(true, 2 as *mut _); }
} }
fn program(_: usize) { unsafe {
    let (s, n) = capture_quantum_state();
    check(n == 0 && s.len() == 1, "a shot starts without qubits");
    check(!__quantum__rt__read_result(1 as *mut _), "a shot starts without results");
    for k in 0..2 {
        __quantum__qis__h__body(k as *mut c_void);
        __quantum__qis__mz__body(k as *mut c_void, k as *mut c_void);
        __quantum__rt__result_record_output(k as *mut c_void, null_mut());
    }
    DONE += 1;
} }
struct Chunks { data: Vec<u8>, at: usize, step: usize, fail: usize }
impl Read for Chunks {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.at >= self.fail { return Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe)); }
        let n = self.step.min(self.data.len() - self.at).min(b.len());
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
static mut TOSS: u64 = 0;
fn toss(_: usize) { unsafe {
    let i = world().runs.len() - 1;
    if i < 2 { __quantum__qis__h__body(null_mut()); __quantum__qis__mz__body(null_mut(), null_mut()); if __quantum__rt__read_result(null_mut()) { TOSS |= 1 << i; } }
} }
