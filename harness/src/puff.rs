//! The same module with unused things in front of the used ones: every index a program uses becomes
//! larger (types, functions, globals, tables, segments, locals, operand stack depth, label depth).
use crate::chk::fnv;
use crate::refi::RModule;
use crate::rng::Rng;
use we::reencode::{utils, Error, Reencode};
use we::{BlockType, Instruction as I, ValType};
use wp35 as wp;

#[derive(Default, Clone, Copy, Debug)]
pub struct Sizes {
    pub types: u32,
    pub funcs: u32,
    pub globals: u32,
    pub tables: u32,
    pub datas: u32,
    pub elems: u32,
    pub locals: u32,
    pub depth: u32,
    pub nest: u32,
}
struct Puff {
    s: Sizes,
    seed: u64,
    nimp: u32,
    /// of the module: types with parameters and results
    types: Vec<(u32, Vec<wasmparser::ValType>)>,
    /// type of each defined function
    funcs: Vec<usize>,
    at: usize,
    params: u32,
}
fn vt(t: wasmparser::ValType) -> ValType {
    use wasmparser::ValType as W;
    match t {
        W::I32 => ValType::I32,
        W::I64 => ValType::I64,
        W::F32 => ValType::F32,
        W::F64 => ValType::F64,
        W::V128 => ValType::V128,
        W::Ref(r) if r.is_func_ref() => ValType::FUNCREF,
        _ => ValType::EXTERNREF,
    }
}
impl Puff {
    fn loc(&self, x: u32) -> u32 {
        if x < self.params { x } else { x + self.s.locals }
    }
}
type R<T> = Result<T, Error<()>>;
impl Reencode for Puff {
    type Error = ();
    fn data_index(&mut self, x: u32) -> R<u32> {
        Ok(x + self.s.datas)
    }
    fn function_index(&mut self, x: u32) -> R<u32> {
        Ok(if x < self.nimp { x } else { x + self.s.funcs })
    }
    fn global_index(&mut self, x: u32) -> R<u32> {
        Ok(x + self.s.globals)
    }
    fn table_index(&mut self, x: u32) -> R<u32> {
        Ok(x + self.s.tables)
    }
    fn type_index(&mut self, x: u32) -> R<u32> {
        Ok(x + self.s.types)
    }
    fn parse_type_section(&mut self, t: &mut we::TypeSection, s: wp::TypeSectionReader<'_>) -> R<()> {
        let mut r = Rng::new(self.seed ^ 1);
        let ts = [ValType::I32, ValType::I64, ValType::F32, ValType::F64];
        for _ in 0..self.s.types {
            let a: Vec<ValType> = (0..r.below(4)).map(|_| ts[r.below(4)]).collect();
            let b: Vec<ValType> = (0..r.below(3)).map(|_| ts[r.below(4)]).collect();
            t.ty().function(a, b);
        }
        utils::parse_type_section(self, t, s)?;
        // for blocks around whole bodies
        for x in &self.types {
            t.ty().function([], x.1.iter().map(|v| vt(*v)));
        }
        t.ty().function([], []);
        Ok(())
    }
    fn parse_function_section(&mut self, f: &mut we::FunctionSection, s: wp::FunctionSectionReader<'_>) -> R<()> {
        for _ in 0..self.s.funcs {
            f.function(self.s.types + 2 * self.types.len() as u32);
        }
        utils::parse_function_section(self, f, s)
    }
    fn parse_global_section(&mut self, g: &mut we::GlobalSection, s: wp::GlobalSectionReader<'_>) -> R<()> {
        for k in 0..self.s.globals {
            let c = match k % 4 {
                0 => (ValType::I64, we::ConstExpr::i64_const(k as i64 * 77)),
                1 => (ValType::I32, we::ConstExpr::i32_const(k as i32)),
                2 => (ValType::F64, we::ConstExpr::f64_const((k as f64).into())),
                _ => (ValType::F32, we::ConstExpr::f32_const((k as f32).into())),
            };
            g.global(we::GlobalType { val_type: c.0, mutable: k % 3 != 0, shared: false }, &c.1);
        }
        utils::parse_global_section(self, g, s)
    }
    fn parse_table_section(&mut self, t: &mut we::TableSection, s: wp::TableSectionReader<'_>) -> R<()> {
        for k in 0..self.s.tables {
            t.table(we::TableType { element_type: if k % 5 == 4 { we::RefType::EXTERNREF } else { we::RefType::FUNCREF }, minimum: (k % 7) as u64, maximum: if k % 2 == 0 { Some(9) } else { None }, table64: false, shared: false });
        }
        utils::parse_table_section(self, t, s)
    }
    fn parse_element_section(&mut self, e: &mut we::ElementSection, s: wp::ElementSectionReader<'_>) -> R<()> {
        for k in 0..self.s.elems {
            // some kind, of the first function
            let f = [self.nimp; 3];
            let el = we::Elements::Functions(f[..(k % 4) as usize % 4].into());
            if k % 2 == 0 {
                e.passive(el);
            } else {
                e.declared(el);
            }
        }
        utils::parse_element_section(self, e, s)
    }
    fn parse_element(&mut self, e: &mut we::ElementSection, x: wp::Element<'_>) -> R<()> {
        let kind = match x.kind {
            wp::ElementKind::Active { table_index: None, offset_expr } => wp::ElementKind::Active { table_index: Some(0), offset_expr },
            k => k,
        };
        utils::parse_element(self, e, wp::Element { kind, ..x })
    }
    fn data_count(&mut self, n: u32) -> R<u32> {
        Ok(n + self.s.datas)
    }
    fn parse_data_section(&mut self, d: &mut we::DataSection, s: wp::DataSectionReader<'_>) -> R<()> {
        for k in 0..self.s.datas {
            d.passive((0..k % 9).map(|x| x as u8));
        }
        utils::parse_data_section(self, d, s)
    }
    fn parse_code_section(&mut self, c: &mut we::CodeSection, s: wp::CodeSectionReader<'_>) -> R<()> {
        for _ in 0..self.s.funcs {
            let mut f = we::Function::new([]);
            f.instruction(&I::Unreachable);
            f.instruction(&I::End);
            c.function(&f);
        }
        utils::parse_code_section(self, c, s)
    }
    fn instruction<'a>(&mut self, o: wp::Operator<'a>) -> R<I<'a>> {
        use wp::Operator as O;
        Ok(match o {
            O::LocalGet { local_index } => I::LocalGet(self.loc(local_index)),
            O::LocalSet { local_index } => I::LocalSet(self.loc(local_index)),
            O::LocalTee { local_index } => I::LocalTee(self.loc(local_index)),
            o => utils::instruction(self, o)?,
        })
    }
    fn parse_function_body(&mut self, c: &mut we::CodeSection, b: wp::FunctionBody<'_>) -> R<()> {
        let ty = self.funcs[self.at];
        self.at += 1;
        self.params = self.types[ty].0;
        let mut locals = vec![];
        if self.s.locals > 0 {
            let h = self.s.locals / 2;
            locals.push((h, ValType::I64));
            locals.push((self.s.locals - h, ValType::F32));
        }
        for p in b.get_locals_reader()? {
            let (n, t) = p?;
            locals.push((n, self.val_type(t)?));
        }
        let mut f = we::Function::new(locals);
        for k in 0..self.s.depth {
            f.instruction(&match k % 3 {
                0 => I::I32Const(k as i32),
                1 => I::I64Const(-(k as i64)),
                _ => I::F64Const((k as f64).into()),
            });
        }
        let wrap = self.s.nest + (self.s.depth > 0) as u32;
        let bt = match self.types[ty].1.len() {
            0 => BlockType::Empty,
            1 => BlockType::Result(vt(self.types[ty].1[0])),
            _ => BlockType::FunctionType(self.s.types + (self.types.len() + ty) as u32),
        };
        for _ in 0..wrap {
            f.instruction(&I::Block(bt));
        }
        let mut r = b.get_operators_reader()?;
        while !r.eof() {
            let i = self.parse_instruction(&mut r)?;
            f.instruction(&i);
        }
        for k in 0..wrap {
            if k + 1 == wrap && self.s.depth > 0 {
                // leaves the operands below behind
                f.instruction(&I::Return);
            }
            f.instruction(&I::End);
        }
        c.function(&f);
        Ok(())
    }
}
pub fn puff(wasm: &[u8], s: Sizes, seed: u64) -> Option<Vec<u8>> {
    let m = RModule::decode(wasm).ok()?;
    let nimp = m.funcs.iter().filter(|f| f.import.is_some()).count() as u32;
    let mut p = Puff {
        s,
        seed,
        nimp,
        types: m.types.iter().map(|t| (t.params.len() as u32, t.results.clone())).collect(),
        funcs: m.funcs.iter().filter(|f| f.import.is_none()).map(|f| f.ty).collect(),
        at: 0,
        params: 0,
    };
    let mut out = we::Module::new();
    p.parse_core_module(&mut out, wp::Parser::new(0), wasm).ok()?;
    Some(out.finish())
}
/// a random choice, for one module in `n`; the same for the same module
pub fn some(wasm: &[u8], n: usize) -> Option<(Vec<u8>, Sizes)> {
    if wasm.len() > 60_000 {
        return None;
    }
    let seed = fnv(wasm, 0x9f);
    let mut r = Rng::new(seed);
    if !r.chance(1, n as u32) {
        return None;
    }
    let mut k = |max: u32| -> u32 {
        if r.chance(1, 2) {
            return 0;
        }
        let v = [1, 2, 5, 17, 40, 130, 255, 256, 300, 700][r.below(10)];
        if v > max { v % max } else { v }
    };
    let s = Sizes { types: k(700), funcs: k(700), globals: k(300), tables: k(40), datas: k(300), elems: k(40), locals: k(300), depth: k(300), nest: k(60) };
    Some((puff(wasm, s, seed)?, s))
}
