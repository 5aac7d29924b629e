//! Small module builder for hand-shaped test modules.
use crate::gen::{cexpr, T};
use wasm_encoder::*;
use wasm_encoder::Instruction as I;

pub struct F {
    pub params: Vec<T>,
    pub results: Vec<T>,
    pub locals: Vec<T>,
    pub code: Vec<I<'static>>,
    pub export: Option<String>,
}
pub enum El {
    Active { table: Option<u32>, off: i32, funcs: Vec<u32> },
    /// expressions: None = ref.null
    ActiveExpr { table: u32, off: i32, items: Vec<Option<u32>> },
    Declared(Vec<u32>),
    Passive(Vec<u32>),
    PassiveExpr(Vec<Option<u32>>),
    DeclaredExpr(Vec<Option<u32>>),
}
fn items(v: &[Option<u32>]) -> Vec<ConstExpr> {
    v.iter()
        .map(|x| match x {
            Some(f) => ConstExpr::ref_func(*f),
            None => ConstExpr::ref_null(HeapType::FUNC),
        })
        .collect()
}
pub enum Da {
    Active(i32, Vec<u8>),
    Passive(Vec<u8>),
}
#[derive(Default)]
pub struct MB {
    pub types: Vec<(Vec<T>, Vec<T>)>,
    pub imports: Vec<(String, String, u32)>,
    pub funcs: Vec<F>,
    pub tables: Vec<(T, u32, Option<u32>)>,
    pub mem: Option<(u32, Option<u32>)>,
    pub globals: Vec<(T, bool, u64)>,
    /// global initialised with ref.func
    pub gfuncs: Vec<(usize, u32)>,
    pub elems: Vec<El>,
    pub datas: Vec<Da>,
    pub start: Option<u32>,
    pub extra_exports: Vec<(String, u8, u32)>,
    /// imports of other kinds, after the functions
    pub other_imports: Vec<(String, String, EntityType)>,
}
impl MB {
    pub fn new() -> MB {
        MB::default()
    }
    pub fn ty(&mut self, p: &[T], r: &[T]) -> u32 {
        if let Some(i) = self.types.iter().position(|t| t.0 == p && t.1 == r) {
            return i as u32;
        }
        self.types.push((p.to_vec(), r.to_vec()));
        self.types.len() as u32 - 1
    }
    /// a block type
    pub fn bt(&mut self, p: &[T], r: &[T]) -> BlockType {
        if p.is_empty() && r.is_empty() {
            BlockType::Empty
        } else if p.is_empty() && r.len() == 1 {
            BlockType::Result(r[0].vt())
        } else {
            BlockType::FunctionType(self.ty(p, r))
        }
    }
    /// imports must be added before functions
    pub fn import(&mut self, m: &str, n: &str, p: &[T], r: &[T]) -> u32 {
        let t = self.ty(p, r);
        self.imports.push((m.into(), n.into(), t));
        self.imports.len() as u32 - 1
    }
    pub fn next(&self) -> u32 {
        (self.imports.len() + self.funcs.len()) as u32
    }
    /// code without the final end
    pub fn func(&mut self, export: Option<&str>, p: &[T], r: &[T], locals: &[T], code: Vec<I<'static>>) -> u32 {
        if self.funcs.last().is_none_or(|f| f.params != p || f.results != r) {
            self.ty(p, r);
        }
        self.funcs.push(F { params: p.to_vec(), results: r.to_vec(), locals: locals.to_vec(), code, export: export.map(|x| x.to_string()) });
        self.next() - 1
    }
    pub fn global(&mut self, t: T, mutable: bool, bits: u64) -> u32 {
        self.globals.push((t, mutable, bits));
        self.globals.len() as u32 - 1
    }
    pub fn sig(&self, f: u32) -> (&[T], &[T]) {
        let n = self.imports.len() as u32;
        if f < n {
            let t = &self.types[self.imports[f as usize].2 as usize];
            (&t.0, &t.1)
        } else {
            let x = &self.funcs[(f - n) as usize];
            (&x.params, &x.results)
        }
    }
    pub fn finish(&mut self) -> Vec<u8> {
        let mut known = std::collections::HashMap::new();
        let sigs: Vec<u32> = (0..self.funcs.len())
            .map(|i| {
                let k = (self.funcs[i].params.clone(), self.funcs[i].results.clone());
                if let Some(x) = known.get(&k) {
                    return *x;
                }
                let x = self.ty(&k.0, &k.1);
                known.insert(k, x);
                x
            })
            .collect();
        let mut m = Module::new();
        let mut s = TypeSection::new();
        for (p, r) in &self.types {
            s.function(p.iter().map(|t| t.vt()), r.iter().map(|t| t.vt()));
        }
        m.section(&s);
        if !self.imports.is_empty() || !self.other_imports.is_empty() {
            let mut s = ImportSection::new();
            for (a, b, t) in &self.imports {
                s.import(a, b, EntityType::Function(*t));
            }
            for (a, b, t) in &self.other_imports {
                s.import(a, b, *t);
            }
            m.section(&s);
        }
        let mut s = FunctionSection::new();
        for t in &sigs {
            s.function(*t);
        }
        m.section(&s);
        if !self.tables.is_empty() {
            let mut s = TableSection::new();
            for (t, min, max) in &self.tables {
                s.table(TableType {
                    element_type: if *t == T::Fn { RefType::FUNCREF } else { RefType::EXTERNREF },
                    minimum: *min as u64,
                    maximum: max.map(|x| x as u64),
                    table64: false,
                });
            }
            m.section(&s);
        }
        if let Some((min, max)) = self.mem {
            let mut s = MemorySection::new();
            s.memory(MemoryType { minimum: min as u64, maximum: max.map(|x| x as u64), memory64: false, shared: false, page_size_log2: None });
            m.section(&s);
        }
        if !self.globals.is_empty() {
            let mut s = GlobalSection::new();
            for (i, (t, mu, b)) in self.globals.iter().enumerate() {
                let e = match self.gfuncs.iter().find(|x| x.0 == i) {
                    Some(x) => ConstExpr::ref_func(x.1),
                    None => cexpr(*t, *b),
                };
                s.global(GlobalType { val_type: t.vt(), mutable: *mu, shared: false }, &e);
            }
            m.section(&s);
        }
        let mut s = ExportSection::new();
        for (i, f) in self.funcs.iter().enumerate() {
            if let Some(n) = &f.export {
                s.export(n, ExportKind::Func, (self.imports.len() + i) as u32);
            }
        }
        for (n, k, i) in &self.extra_exports {
            let k = match k {
                0 => ExportKind::Func,
                1 => ExportKind::Table,
                2 => ExportKind::Memory,
                _ => ExportKind::Global,
            };
            s.export(n, k, *i);
        }
        m.section(&s);
        if let Some(f) = self.start {
            m.section(&StartSection { function_index: f });
        }
        if !self.elems.is_empty() {
            let mut s = ElementSection::new();
            for e in &self.elems {
                match e {
                    El::Active { table, off, funcs } => {
                        s.active(*table, &ConstExpr::i32_const(*off), Elements::Functions(funcs));
                    }
                    El::ActiveExpr { table, off, items } => {
                        let v = self::items(items);
                        s.active(Some(*table), &ConstExpr::i32_const(*off), Elements::Expressions(RefType::FUNCREF, &v));
                    }
                    El::Declared(f) => {
                        s.declared(Elements::Functions(f));
                    }
                    El::Passive(f) => {
                        s.passive(Elements::Functions(f));
                    }
                    El::PassiveExpr(f) => {
                        s.passive(Elements::Expressions(RefType::FUNCREF, &self::items(f)));
                    }
                    El::DeclaredExpr(f) => {
                        s.declared(Elements::Expressions(RefType::FUNCREF, &self::items(f)));
                    }
                }
            }
            m.section(&s);
        }
        if !self.datas.is_empty() {
            m.section(&DataCountSection { count: self.datas.len() as u32 });
        }
        let mut s = CodeSection::new();
        for f in &self.funcs {
            let mut v: Vec<(u32, ValType)> = vec![];
            for t in &f.locals {
                match v.last_mut() {
                    Some(x) if x.1 == t.vt() => x.0 += 1,
                    _ => v.push((1, t.vt())),
                }
            }
            let mut b = Function::new(v);
            for i in &f.code {
                b.instruction(i);
            }
            b.instruction(&I::End);
            s.function(&b);
        }
        m.section(&s);
        if !self.datas.is_empty() {
            let mut s = DataSection::new();
            for d in &self.datas {
                match d {
                    Da::Active(o, b) => {
                        s.active(0, &ConstExpr::i32_const(*o), b.iter().copied());
                    }
                    Da::Passive(b) => {
                        s.passive(b.iter().copied());
                    }
                }
            }
            m.section(&s);
        }
        m.finish()
    }
}
