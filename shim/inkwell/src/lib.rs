//! Stand-in for the part of inkwell that the runner uses: a module is a list of functions described by the
//! harness, the execution engine records what is mapped and "runs" a function by calling the harness.
#![allow(static_mut_refs, clippy::all)]
use std::ffi::{CStr, CString};
use std::marker::PhantomData;

pub struct Fun { pub name: CString, pub params: usize, pub blocks: u32, pub attrs: Vec<(CString, CString)> }
#[derive(Default)]
pub struct World {
    pub functions: Vec<Fun>,
    pub bad_text: bool, pub bad_module: bool, pub bad_target: bool, pub bad_asm: bool, pub bad_machine: bool, pub bad_passes: bool, pub bad_engine: bool, pub bad_file: bool,
    /// what reached the parser: bytes, and the byte after them
    pub parsed: Vec<(Vec<u8>, u8)>,
    pub files: Vec<(String, bool)>,
    pub mapped: Vec<(usize, usize)>,
    pub runs: Vec<(usize, usize)>,
    pub hook: Option<fn(usize)>,
}
pub static mut WORLD: Option<World> = None;
pub fn world() -> &'static mut World { unsafe { WORLD.get_or_insert_with(World::default) } }
pub fn reset() -> &'static mut World { unsafe { WORLD = Some(World::default()); world() } }

unsafe fn bitcode(p: *const u8, n: usize) -> bool { unsafe { n >= 4 && ((*p == 0x42 && *p.add(1) == 0x43 && *p.add(2) == 0xC0 && *p.add(3) == 0xDE) || (*p == 0xDE && *p.add(1) == 0xC0 && *p.add(2) == 0x17 && *p.add(3) == 0x0B)) } }
#[derive(Debug)]
pub struct Failure(&'static str);
impl std::fmt::Display for Failure { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Failure {}
fn fail(b: bool, m: &'static str) -> Result<(), Failure> { if b { Err(Failure(m)) } else { Ok(()) } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OptimizationLevel { None, Less, Default, Aggressive }
pub mod attributes {
    use super::*;
    #[derive(Clone, Copy)]
    pub enum AttributeLoc { Return, Param(u32), Function }
    pub struct Attribute(pub usize, pub usize);
    impl Attribute {
        pub fn get_string_kind_id(&self) -> &CStr { &world().functions[self.0].attrs[self.1].0 }
        pub fn get_string_value(&self) -> &CStr { &world().functions[self.0].attrs[self.1].1 }
    }
}
pub mod context {
    use super::*;
    pub struct Context(());
    impl Context {
        pub fn create() -> Self { Context(()) }
        pub fn create_module_from_ir(&self, b: memory_buffer::MemoryBuffer) -> Result<module::Module<'_>, Failure> {
            let w = world();
            if let Some((p, n)) = b.mem { unsafe { w.parsed.push((std::slice::from_raw_parts(p, n).to_vec(), if bitcode(p, n) { 0 } else { *p.add(n) })); } }
            fail(w.bad_text, "bad text")?;
            Ok(module::Module(PhantomData))
        }
    }
}
pub mod memory_buffer {
    use super::*;
    pub struct MemoryBuffer<'a> { pub mem: Option<(*const u8, usize)>, ph: PhantomData<&'a u8> }
    impl<'a> MemoryBuffer<'a> {
        pub fn create_from_memory_range(d: &'a [u8], _name: &str) -> Self { MemoryBuffer { mem: Some((d.as_ptr(), d.len())), ph: PhantomData } }
        pub fn create_from_file(p: &std::path::Path) -> Result<Self, Failure> { let w = world(); w.files.push((p.to_str().unwrap().to_string(), false)); fail(w.bad_file, "bad file")?; Ok(MemoryBuffer { mem: None, ph: PhantomData }) }
    }
}
pub mod module {
    use super::*;
    pub struct Module<'c>(pub PhantomData<&'c ()>);
    impl<'c> Module<'c> {
        pub fn verify(&self) -> Result<(), Failure> { fail(world().bad_module, "bad module") }
        pub fn parse_bitcode_from_path<P: AsRef<std::path::Path>>(p: P, _c: &'c context::Context) -> Result<Self, Failure> { let w = world(); w.files.push((p.as_ref().to_str().unwrap().to_string(), true)); fail(w.bad_file, "bad file")?; Ok(Module(PhantomData)) }
        pub fn get_first_function(&self) -> Option<values::FunctionValue<'c>> { if world().functions.is_empty() { None } else { Some(values::FunctionValue(0, PhantomData)) } }
        pub fn get_functions(&self) -> impl Iterator<Item = values::FunctionValue<'c>> { (0..world().functions.len()).map(|i| values::FunctionValue(i, PhantomData)) }
        pub fn get_function(&self, n: &str) -> Option<values::FunctionValue<'c>> { self.get_functions().find(|f| f.get_name().to_str() == Ok(n)) }
        pub fn run_passes(&self, _p: &str, _m: &targets::TargetMachine, _o: passes::PassBuilderOptions) -> Result<(), Failure> { fail(world().bad_passes, "bad passes") }
        pub fn create_jit_execution_engine(&self, _l: OptimizationLevel) -> Result<execution_engine::ExecutionEngine<'c>, Failure> { fail(world().bad_engine, "bad engine")?; Ok(execution_engine::ExecutionEngine(PhantomData)) }
    }
}
pub mod values {
    use super::*;
    pub struct GenericValue<'c>(PhantomData<&'c ()>);
    #[derive(Clone, Copy)]
    pub struct Param;
    pub trait AnyValue { fn index(&self) -> usize; }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct FunctionValue<'c>(pub usize, pub PhantomData<&'c ()>);
    impl AnyValue for FunctionValue<'_> { fn index(&self) -> usize { self.0 } }
    impl<'c> FunctionValue<'c> {
        fn d(&self) -> &'static Fun { &world().functions[self.0] }
        pub fn get_name(&self) -> &CStr { &self.d().name }
        pub fn count_params(&self) -> u32 { self.d().params as u32 }
        pub fn count_basic_blocks(&self) -> u32 { self.d().blocks }
        pub fn get_params(&self) -> Vec<Param> { let mut v: Vec<Param> = Vec::new(); unsafe { v.set_len(self.d().params); } v }
        pub fn get_next_function(self) -> Option<Self> { if self.0 + 1 < world().functions.len() { Some(FunctionValue(self.0 + 1, PhantomData)) } else { None } }
        pub fn attributes(&self, _l: attributes::AttributeLoc) -> Vec<attributes::Attribute> { (0..self.d().attrs.len()).map(|i| attributes::Attribute(self.0, i)).collect() }
        pub fn get_string_attribute(&self, _l: attributes::AttributeLoc, key: &str) -> Option<attributes::Attribute> {
            self.d().attrs.iter().position(|a| a.0.to_bytes() == key.as_bytes()).map(|i| attributes::Attribute(self.0, i))
        }
    }
    pub(crate) fn generic<'c>() -> GenericValue<'c> { GenericValue(PhantomData) }
}
pub mod execution_engine {
    use super::*;
    pub struct ExecutionEngine<'c>(pub PhantomData<&'c ()>);
    impl<'c> ExecutionEngine<'c> {
        pub fn add_global_mapping(&self, f: &dyn values::AnyValue, addr: usize) { world().mapped.push((f.index(), addr)); }
        pub unsafe fn run_function(&self, f: values::FunctionValue<'c>, args: &[&values::GenericValue<'c>]) -> values::GenericValue<'c> { let w = world(); w.runs.push((f.0, args.len())); if let Some(h) = w.hook { h(f.0); } values::generic() }
    }
}
pub mod passes {
    use super::*;
    pub struct PassBuilderOptions(());
    impl PassBuilderOptions { pub fn create() -> Self { PassBuilderOptions(()) } }
    pub struct PassManager<T>(PhantomData<T>);
}
pub mod targets {
    use super::*;
    pub enum CodeModel { Default, JITDefault, Small, Kernel, Medium, Large }
    pub enum RelocMode { Default, Static, PIC, DynamicNoPic }
    #[derive(Default)]
    pub struct InitializationConfig { pub asm_parser: bool }
    pub struct TargetTriple(());
    pub struct Target(());
    pub struct TargetMachine(());
    impl Target {
        pub fn initialize_native(_c: &InitializationConfig) -> Result<(), String> { if world().bad_target { Err("bad target".to_string()) } else { Ok(()) } }
        pub fn from_triple(_t: &TargetTriple) -> Result<Self, Failure> { Ok(Target(())) }
        pub fn has_asm_backend(&self) -> bool { !world().bad_asm }
        pub fn has_target_machine(&self) -> bool { !world().bad_machine }
        pub fn create_target_machine(&self, _t: &TargetTriple, _cpu: &str, _f: &str, _l: OptimizationLevel, _r: RelocMode, _c: CodeModel) -> Option<TargetMachine> { Some(TargetMachine(())) }
    }
    impl TargetMachine { pub fn get_default_triple() -> TargetTriple { TargetTriple(()) } }
}
pub mod support { pub fn load_library_permanently(_p: &std::path::Path) -> Result<(), String> { Ok(()) } }
pub mod llvm_sys {
    pub mod core { pub fn LLVMCreateMemoryBufferWithMemoryRange() {} }
    pub mod ir_reader { pub fn LLVMParseIRInContext() {} }
}
