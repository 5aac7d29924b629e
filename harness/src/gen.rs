//! Random well-typed module generator. Everything it emits is valid WebAssembly within the feature
//! set chiwawa implements and terminates (loop counters, call fuel).
use crate::hostmodel;
use crate::rng::Rng;
use std::borrow::Cow;
use wasm_encoder::{
    BlockType, CodeSection, ConstExpr, DataCountSection, DataSection, ElementSection, Elements, EntityType, ExportKind, ExportSection,
    Function, FunctionSection, GlobalSection, GlobalType, HeapType, ImportSection, Instruction as I, MemArg, MemorySection, MemoryType,
    Module, RefType, StartSection, TableSection, TableType, TypeSection, ValType,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum T {
    I32,
    I64,
    F32,
    F64,
    Fn,
    Ex,
}
impl T {
    pub fn vt(self) -> ValType {
        match self {
            T::I32 => ValType::I32,
            T::I64 => ValType::I64,
            T::F32 => ValType::F32,
            T::F64 => ValType::F64,
            T::Fn => ValType::Ref(RefType::FUNCREF),
            T::Ex => ValType::Ref(RefType::EXTERNREF),
        }
    }
    pub fn num(self) -> bool {
        !matches!(self, T::Fn | T::Ex)
    }
}
pub const NUMS: [T; 4] = [T::I32, T::I64, T::F32, T::F64];

#[derive(Clone, Debug)]
pub struct Prof {
    /// number types drawn (weights i32,i64,f32,f64)
    pub tw: [u32; 4],
    pub funcs: (usize, usize),
    pub stmts: (usize, usize),
    pub depth: u32,
    pub locals: (usize, usize),
    pub globals: (usize, usize),
    pub mem: bool,
    pub table: bool,
    pub refs: bool,
    /// expression weights
    pub e_num: u32,
    pub e_conv: u32,
    pub e_load: u32,
    pub e_global: u32,
    pub e_ctrl: u32,
    pub e_call: u32,
    pub e_ind: u32,
    pub e_select: u32,
    pub e_tee: u32,
    pub e_host: u32,
    pub e_size: u32,
    /// chance (of 100) of a statement between pushing operands and using them
    pub mid: u32,
    /// statement weights
    pub s_set: u32,
    pub s_gset: u32,
    pub s_store: u32,
    pub s_ctrl: u32,
    pub s_br: u32,
    pub s_call: u32,
    pub s_host: u32,
    pub s_bulk: u32,
    pub s_table: u32,
    pub s_grow: u32,
    pub s_mix: u32,
    /// chance (of 1000) that a trapping operation is left unprotected
    pub trap: u32,
    /// chance (of 1000) that an access may be out of bounds
    pub oob: u32,
    /// chance of 1000 of an explicit unreachable behind a condition
    pub unreach: u32,
    pub multi: usize,
    pub maxp: usize,
    pub fuel: u32,
    pub iters: u32,
    pub start: bool,
    pub drops: bool,
    pub pad: u32,
    /// functions imported from another instance: (name, params, results)
    pub linked: Vec<(String, Vec<T>, Vec<T>)>,
    pub dump: u32,
    pub memdump: bool,
}
pub fn base() -> Prof {
    Prof {
        tw: [5, 3, 1, 1],
        funcs: (2, 6),
        stmts: (2, 7),
        depth: 4,
        locals: (1, 8),
        globals: (1, 5),
        mem: true,
        table: true,
        refs: false,
        e_num: 30,
        e_conv: 6,
        e_load: 8,
        e_global: 8,
        e_ctrl: 6,
        e_call: 5,
        e_ind: 3,
        e_select: 4,
        e_tee: 4,
        e_host: 2,
        e_size: 1,
        mid: 12,
        s_set: 20,
        s_gset: 8,
        s_store: 8,
        s_ctrl: 10,
        s_br: 8,
        s_call: 6,
        s_host: 4,
        s_bulk: 2,
        s_table: 2,
        s_grow: 1,
        s_mix: 8,
        trap: 5,
        oob: 0,
        unreach: 3,
        multi: 4,
        maxp: 5,
        fuel: 60,
        iters: 4,
        start: false,
        drops: true,
        pad: 0,
        linked: vec![],
        dump: 70,
        memdump: true,
    }
}

pub const I32S: [i32; 24] = [
    0, 1, -1, 2, -2, 7, 8, 31, 32, 33, 63, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, i32::MAX, i32::MIN, i32::MIN + 1, 0x55555555,
    0x12345678,
];
pub const I64S: [i64; 26] = [
    0, 1, -1, 2, -2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, -0x80000000, i64::MAX,
    i64::MIN, i64::MIN + 1, 0x5555555555555555, 0x123456789abcdef0, 0x8000000080000000u64 as i64,
];
pub const F32S: [u32; 40] = [
    0, 0x80000000, 0x3f800000, 0xbf800000, 0x3f000000, 0xbf000000, 0x3fc00000, 0xbfc00000, 0x40200000, 0xc0200000, 0x3effffff, 0x4b000000,
    0x4b000001, 0x4effffff, 0x4f000000, 0x4f000001, 0xcf000000, 0xcf000001, 0x4f7fffff, 0x4f800000, 0x5effffff, 0x5f000000, 0xdf000000,
    0xdf000001, 0x5f7fffff, 0x5f800000, 0xbf7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7fa00000, 0x7f800001, 0x00000001,
    0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x40490fdb,
];
pub const F64S: [u64; 42] = [
    0,
    0x8000000000000000,
    0x3ff0000000000000,
    0xbff0000000000000,
    0x3fe0000000000000,
    0xbfe0000000000000,
    0x3ff8000000000000,
    0x4004000000000000,
    0xc004000000000000,
    0x3fdfffffffffffff,
    0x41dfffffffc00000, // 2147483647
    0x41dfffffffe00000, // 2147483647.5
    0x41e0000000000000, // 2147483648
    0xc1e0000000000000, // -2147483648
    0xc1e0000000100000, // -2147483648.5
    0xc1e0000000200000, // -2147483649
    0x41efffffffe00000, // 4294967295
    0x41effffffff00000, // 4294967295.5
    0x41f0000000000000, // 4294967296
    0x43dfffffffffffff,
    0x43e0000000000000, // 2^63
    0xc3e0000000000000,
    0xc3e0000000000001,
    0x43efffffffffffff,
    0x43f0000000000000, // 2^64
    0xbfefffffffffffff,
    0x7ff0000000000000,
    0xfff0000000000000,
    0x7ff8000000000000,
    0xfff8000000000000,
    0x7ff4000000000000,
    0x7ff0000000000001,
    1,
    0x8000000000000001,
    0x000fffffffffffff,
    0x0010000000000000,
    0x7fefffffffffffff,
    0x36a0000000000000,
    0x47efffffe0000000, // f32 max
    0x47effffff0000000, // rounds to inf as f32
    0x3690000000000000,
    0x400921fb54442d18,
];
pub fn val32(r: &mut Rng) -> i32 {
    match r.below(5) {
        0 | 1 => *r.pick(&I32S),
        2 => r.below(64) as i32,
        3 => r.u32() as i32,
        _ => (r.u32() >> r.below(32)) as i32,
    }
}
pub fn val64(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 | 1 => *r.pick(&I64S),
        2 => r.below(64) as i64,
        3 => r.u64() as i64,
        _ => (r.u64() >> r.below(64)) as i64,
    }
}
pub fn valf32(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 | 1 => *r.pick(&F32S),
        2 => (r.below(1000) as f32 / 8.0 - 50.0).to_bits(),
        3 => (val64(r) as f32).to_bits(),
        4 => (r.pick(&F32S)).wrapping_add(r.below(3) as u32).wrapping_sub(1),
        _ => r.u32(),
    }
}
pub fn valf64(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 | 1 => *r.pick(&F64S),
        2 => (r.below(1000) as f64 / 8.0 - 50.0).to_bits(),
        3 => (val64(r) as f64).to_bits(),
        4 => (r.pick(&F64S)).wrapping_add(r.below(3) as u64).wrapping_sub(1),
        _ => r.u64(),
    }
}
/// a random argument value of a number type, as bits
pub fn arg_bits(r: &mut Rng, t: T) -> u64 {
    match t {
        T::I32 => val32(r) as u32 as u64,
        T::I64 => val64(r) as u64,
        T::F32 => valf32(r) as u64,
        T::F64 => valf64(r),
        _ => u64::MAX,
    }
}

pub const BIN32: [I<'static>; 15] = [
    I::I32Add, I::I32Sub, I::I32Mul, I::I32And, I::I32Or, I::I32Xor, I::I32Shl, I::I32ShrS, I::I32ShrU, I::I32Rotl, I::I32Rotr, I::I32DivS, I::I32DivU,
    I::I32RemS, I::I32RemU,
];
pub const CMP32: [I<'static>; 10] =
    [I::I32Eq, I::I32Ne, I::I32LtS, I::I32LtU, I::I32GtS, I::I32GtU, I::I32LeS, I::I32LeU, I::I32GeS, I::I32GeU];
pub const UN32: [I<'static>; 6] = [I::I32Clz, I::I32Ctz, I::I32Popcnt, I::I32Eqz, I::I32Extend8S, I::I32Extend16S];
pub const BIN64: [I<'static>; 15] = [
    I::I64Add, I::I64Sub, I::I64Mul, I::I64And, I::I64Or, I::I64Xor, I::I64Shl, I::I64ShrS, I::I64ShrU, I::I64Rotl, I::I64Rotr, I::I64DivS, I::I64DivU,
    I::I64RemS, I::I64RemU,
];
pub const CMP64: [I<'static>; 10] =
    [I::I64Eq, I::I64Ne, I::I64LtS, I::I64LtU, I::I64GtS, I::I64GtU, I::I64LeS, I::I64LeU, I::I64GeS, I::I64GeU];
pub const UN64: [I<'static>; 6] = [I::I64Clz, I::I64Ctz, I::I64Popcnt, I::I64Extend8S, I::I64Extend16S, I::I64Extend32S];
pub const BINF32: [I<'static>; 7] = [I::F32Add, I::F32Sub, I::F32Mul, I::F32Div, I::F32Min, I::F32Max, I::F32Copysign];
pub const CMPF32: [I<'static>; 6] = [I::F32Eq, I::F32Ne, I::F32Lt, I::F32Gt, I::F32Le, I::F32Ge];
pub const UNF32: [I<'static>; 7] = [I::F32Abs, I::F32Neg, I::F32Ceil, I::F32Floor, I::F32Trunc, I::F32Nearest, I::F32Sqrt];
pub const BINF64: [I<'static>; 7] = [I::F64Add, I::F64Sub, I::F64Mul, I::F64Div, I::F64Min, I::F64Max, I::F64Copysign];
pub const CMPF64: [I<'static>; 6] = [I::F64Eq, I::F64Ne, I::F64Lt, I::F64Gt, I::F64Le, I::F64Ge];
pub const UNF64: [I<'static>; 7] = [I::F64Abs, I::F64Neg, I::F64Ceil, I::F64Floor, I::F64Trunc, I::F64Nearest, I::F64Sqrt];
/// (instruction, from, to, traps)
pub const CONVS: [(I<'static>, T, T, bool); 33] = [
    (I::I32WrapI64, T::I64, T::I32, false),
    (I::I64ExtendI32S, T::I32, T::I64, false),
    (I::I64ExtendI32U, T::I32, T::I64, false),
    (I::I32TruncF32S, T::F32, T::I32, true),
    (I::I32TruncF32U, T::F32, T::I32, true),
    (I::I32TruncF64S, T::F64, T::I32, true),
    (I::I32TruncF64U, T::F64, T::I32, true),
    (I::I64TruncF32S, T::F32, T::I64, true),
    (I::I64TruncF32U, T::F32, T::I64, true),
    (I::I64TruncF64S, T::F64, T::I64, true),
    (I::I64TruncF64U, T::F64, T::I64, true),
    (I::I32TruncSatF32S, T::F32, T::I32, false),
    (I::I32TruncSatF32U, T::F32, T::I32, false),
    (I::I32TruncSatF64S, T::F64, T::I32, false),
    (I::I32TruncSatF64U, T::F64, T::I32, false),
    (I::I64TruncSatF32S, T::F32, T::I64, false),
    (I::I64TruncSatF32U, T::F32, T::I64, false),
    (I::I64TruncSatF64S, T::F64, T::I64, false),
    (I::I64TruncSatF64U, T::F64, T::I64, false),
    (I::F32ConvertI32S, T::I32, T::F32, false),
    (I::F32ConvertI32U, T::I32, T::F32, false),
    (I::F32ConvertI64S, T::I64, T::F32, false),
    (I::F32ConvertI64U, T::I64, T::F32, false),
    (I::F64ConvertI32S, T::I32, T::F64, false),
    (I::F64ConvertI32U, T::I32, T::F64, false),
    (I::F64ConvertI64S, T::I64, T::F64, false),
    (I::F64ConvertI64U, T::I64, T::F64, false),
    (I::F32DemoteF64, T::F64, T::F32, false),
    (I::F64PromoteF32, T::F32, T::F64, false),
    (I::I32ReinterpretF32, T::F32, T::I32, false),
    (I::I64ReinterpretF64, T::F64, T::I64, false),
    (I::F32ReinterpretI32, T::I32, T::F32, false),
    (I::F64ReinterpretI64, T::I64, T::F64, false),
];
pub fn cst(t: T, bits: u64) -> I<'static> {
    match t {
        T::I32 => I::I32Const(bits as u32 as i32),
        T::I64 => I::I64Const(bits as i64),
        T::F32 => I::F32Const(f32::from_bits(bits as u32)),
        T::F64 => I::F64Const(f64::from_bits(bits)),
        T::Fn => I::RefNull(HeapType::FUNC),
        T::Ex => I::RefNull(HeapType::EXTERN),
    }
}
pub fn cexpr(t: T, bits: u64) -> ConstExpr {
    match t {
        T::I32 => ConstExpr::i32_const(bits as u32 as i32),
        T::I64 => ConstExpr::i64_const(bits as i64),
        T::F32 => ConstExpr::f32_const(f32::from_bits(bits as u32)),
        T::F64 => ConstExpr::f64_const(f64::from_bits(bits)),
        T::Fn => ConstExpr::ref_null(HeapType::FUNC),
        T::Ex => ConstExpr::ref_null(HeapType::EXTERN),
    }
}
pub fn ma(offset: u64, align: u32) -> MemArg {
    MemArg { offset, align, memory_index: 0 }
}
pub const LOADS: [(fn(MemArg) -> I<'static>, T, u32); 14] = [
    (I::I32Load, T::I32, 4),
    (I::I32Load8S, T::I32, 1),
    (I::I32Load8U, T::I32, 1),
    (I::I32Load16S, T::I32, 2),
    (I::I32Load16U, T::I32, 2),
    (I::I64Load, T::I64, 8),
    (I::I64Load8S, T::I64, 1),
    (I::I64Load8U, T::I64, 1),
    (I::I64Load16S, T::I64, 2),
    (I::I64Load16U, T::I64, 2),
    (I::I64Load32S, T::I64, 4),
    (I::I64Load32U, T::I64, 4),
    (I::F32Load, T::F32, 4),
    (I::F64Load, T::F64, 8),
];
pub const STORES: [(fn(MemArg) -> I<'static>, T, u32); 9] = [
    (I::I32Store, T::I32, 4),
    (I::I32Store8, T::I32, 1),
    (I::I32Store16, T::I32, 2),
    (I::I64Store, T::I64, 8),
    (I::I64Store8, T::I64, 1),
    (I::I64Store16, T::I64, 2),
    (I::I64Store32, T::I64, 4),
    (I::F32Store, T::F32, 4),
    (I::F64Store, T::F64, 8),
];

#[derive(Clone, Debug)]
pub struct Call {
    pub name: String,
    pub args: Vec<(T, u64)>,
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub wasm: Vec<u8>,
    pub calls: Vec<Call>,
    pub host_seed: u64,
}

struct Sig {
    ty: u32,
    params: Vec<T>,
    results: Vec<T>,
}
struct Ctrl {
    tys: Vec<T>,
}
pub struct G<'r> {
    r: &'r mut Rng,
    p: Prof,
    types: Vec<(Vec<T>, Vec<T>)>,
    sigs: Vec<Sig>,
    nimp: u32,
    himp: Vec<(&'static str, u32)>,
    globals: Vec<(T, bool)>,
    fuel_g: Option<u32>,
    table_len: u32,
    slots: Vec<Option<u32>>,
    npassive: u32,
    // current function
    locals: Vec<T>,
    pool: usize,
    addr: Vec<u32>,
    ctrl: Vec<Ctrl>,
    code: Vec<I<'static>>,
    cur: u32,
    budget: i32,
}

impl<'r> G<'r> {
    fn ty(&mut self) -> T {
        let w = self.p.tw;
        let mut k = self.r.below((w[0] + w[1] + w[2] + w[3]) as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return NUMS[i];
            }
            k -= x;
        }
        T::I32
    }
    fn anyty(&mut self) -> T {
        if self.p.refs && self.r.chance(1, 6) {
            if self.r.chance(3, 4) {
                T::Fn
            } else {
                T::Ex
            }
        } else {
            self.ty()
        }
    }
    fn tys(&mut self, max: usize) -> Vec<T> {
        let n = if self.r.chance(1, 3) { self.r.below(max + 1) } else { self.r.below(2.min(max) + 1) };
        (0..n).map(|_| self.anyty()).collect()
    }
    fn e(&mut self, i: I<'static>) {
        self.code.push(i);
    }
    fn type_idx(&mut self, p: &[T], r: &[T]) -> u32 {
        // sometimes add a duplicate so that structural equality matters
        let dup = self.r.chance(1, 10) && self.types.len() < 60;
        if !dup {
            if let Some(i) = self.types.iter().position(|t| t.0 == p && t.1 == r) {
                return i as u32;
            }
        }
        self.types.push((p.to_vec(), r.to_vec()));
        (self.types.len() - 1) as u32
    }
    fn bt(&mut self, p: &[T], r: &[T]) -> BlockType {
        if p.is_empty() && r.is_empty() {
            BlockType::Empty
        } else if p.is_empty() && r.len() == 1 {
            BlockType::Result(r[0].vt())
        } else {
            BlockType::FunctionType(self.type_idx(p, r))
        }
    }
    fn local_of(&mut self, t: T) -> Option<u32> {
        let v: Vec<u32> = (0..self.pool).filter(|i| self.locals[*i] == t).map(|x| x as u32).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn new_local(&mut self, t: T) -> u32 {
        self.locals.push(t);
        (self.locals.len() - 1) as u32
    }
    fn constant(&mut self, t: T) {
        let b = arg_bits(self.r, t);
        self.e(cst(t, b));
    }
    fn leaf(&mut self, t: T) {
        if self.r.chance(2, 5) {
            self.constant(t);
            return;
        }
        if self.p.e_global > 0 && self.r.chance(1, 6) {
            let v: Vec<u32> = (0..self.globals.len() as u32).filter(|i| self.globals[*i as usize].0 == t && Some(*i) != self.fuel_g).collect();
            if !v.is_empty() {
                let g = *self.r.pick(&v);
                self.e(I::GlobalGet(g));
                return;
            }
        }
        match self.local_of(t) {
            Some(l) => self.e(I::LocalGet(l)),
            None => self.constant(t),
        }
    }
    fn mid(&mut self, d: u32) {
        if d > 0 && self.r.chance(self.p.mid, 100) {
            self.stmt(d - 1);
        }
    }
    /// an in-bounds byte address, at most 0x7fff + 0x40
    fn address(&mut self, d: u32) {
        if self.p.oob > 0 && self.r.chance(self.p.oob, 1000) {
            self.expr(T::I32, d.saturating_sub(1));
            return;
        }
        match self.r.below(6) {
            0 => {
                let a = self.r.below(0x8000) as i32;
                self.e(I::I32Const(a));
            }
            1 | 2 | 3 if !self.addr.is_empty() => {
                let a = *self.r.pick(&self.addr);
                self.e(I::LocalGet(a));
                if self.r.chance(1, 4) {
                    let k = self.r.below(0x40) as i32;
                    self.e(I::I32Const(k));
                    self.e(I::I32Add);
                }
            }
            _ => {
                self.expr(T::I32, d.saturating_sub(1));
                self.e(I::I32Const(0x7fff));
                self.e(I::I32And);
            }
        }
    }
    fn offset(&mut self) -> u64 {
        if self.p.oob > 0 && self.r.chance(self.p.oob, 1000) {
            return match self.r.below(4) {
                0 => 0xffff_ffff,
                1 => 0x1_0000,
                2 => 0xfff8 + self.r.below(16) as u64,
                _ => self.r.u32() as u64,
            };
        }
        match self.r.below(4) {
            0 | 1 => 0,
            2 => self.r.below(64) as u64,
            _ => self.r.below(0x7f00) as u64,
        }
    }
    pub fn expr(&mut self, t: T, d: u32) {
        self.budget -= 1;
        if d == 0 || self.budget < 0 || !t.num() && self.r.chance(1, 2) {
            if !t.num() && self.p.table && t == T::Fn && self.r.chance(1, 2) {
                self.tget(0);
                return;
            }
            self.leaf(t);
            return;
        }
        let p = &self.p;
        let w = [
            p.e_num, p.e_conv, p.e_load, p.e_global, p.e_ctrl, p.e_call, p.e_ind, p.e_select, p.e_tee, p.e_host, p.e_size,
        ];
        let leafw = 14;
        let tot: u32 = w.iter().sum::<u32>() + leafw;
        let mut k = self.r.below(tot as usize) as u32;
        let mut c = w.len();
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                c = i;
                break;
            }
            k -= x;
        }
        match c {
            0 => self.num(t, d),
            1 => self.conv(t, d),
            2 if self.p.mem && t.num() => {
                let v: Vec<usize> = (0..LOADS.len()).filter(|i| LOADS[*i].1 == t).collect();
                let l = LOADS[*self.r.pick(&v)];
                self.address(d);
                let o = self.offset();
                let al = self.r.below(l.2.trailing_zeros() as usize + 1) as u32;
                self.e((l.0)(ma(o, al)));
            }
            3 => {
                let v: Vec<u32> = (0..self.globals.len() as u32).filter(|i| self.globals[*i as usize].0 == t && Some(*i) != self.fuel_g).collect();
                if v.is_empty() {
                    self.leaf(t)
                } else {
                    let g = *self.r.pick(&v);
                    self.e(I::GlobalGet(g));
                }
            }
            4 => {
                let params = if self.r.chance(1, 4) { self.tys(self.p.multi) } else { vec![] };
                self.block(params, vec![t], d - 1);
            }
            5 => {
                let cur = self.cur;
                let v: Vec<u32> = (0..self.sigs.len() as u32)
                    .filter(|i| {
                        let s = &self.sigs[*i as usize];
                        s.results.len() == 1 && s.results[0] == t && (self.fuel_g.is_some() || *i > cur || *i < self.nimp) && !self.is_host(*i)
                    })
                    .collect();
                if v.is_empty() {
                    return self.leaf(t);
                }
                let f = *self.r.pick(&v);
                self.call(f, d);
            }
            6 if self.p.table => {
                if !self.indirect(Some(t), d) {
                    self.leaf(t)
                }
            }
            7 => {
                self.expr(t, d - 1);
                self.mid(d);
                self.expr(t, d - 1);
                self.mid(d);
                self.cond(d - 1);
                if t.num() && self.r.chance(4, 5) {
                    self.e(I::Select)
                } else {
                    self.e(I::TypedSelect(t.vt()))
                }
            }
            8 => match self.local_of(t) {
                Some(l) => {
                    self.expr(t, d - 1);
                    self.e(I::LocalTee(l));
                }
                None => self.leaf(t),
            },
            9 if t == T::I32 => {
                if !self.host(d) {
                    self.leaf(t)
                }
            }
            10 if t == T::I32 && self.p.mem => self.e(I::MemorySize(0)),
            10 if t == T::I32 && self.p.refs => {
                let rt = if self.r.chance(1, 3) { T::Ex } else { T::Fn };
                self.expr(rt, d - 1);
                self.e(I::RefIsNull);
            }
            _ if t == T::Fn && self.p.table => self.tget(d),
            _ => self.leaf(t),
        }
    }
    fn is_host(&self, f: u32) -> bool {
        self.himp.iter().any(|h| h.1 == f)
    }
    fn cond(&mut self, d: u32) {
        match self.r.below(4) {
            0 => self.leaf(T::I32),
            1 | 2 => {
                let t = self.ty();
                self.expr(t, d.min(1));
                self.mid(d);
                let (a, b) = (d.min(1), d.min(2));
                let k = if self.r.chance(1, 2) { a } else { b };
                if t == T::I64 && self.r.chance(1, 6) {
                    self.e(I::I64Eqz);
                    return;
                }
                if t == T::I32 && self.r.chance(1, 5) {
                    self.e(I::I32Eqz);
                    return;
                }
                self.expr(t, k);
                let op = match t {
                    T::I32 => self.r.pick(&CMP32).clone(),
                    T::I64 => self.r.pick(&CMP64).clone(),
                    T::F32 => self.r.pick(&CMPF32).clone(),
                    _ => self.r.pick(&CMPF64).clone(),
                };
                self.e(op);
            }
            _ => self.expr(T::I32, d),
        }
    }
    fn num(&mut self, t: T, d: u32) {
        if !t.num() {
            return self.leaf(t);
        }
        if self.r.chance(1, 4) {
            self.expr(t, d - 1);
            let op = match t {
                T::I32 => self.r.pick(&UN32).clone(),
                T::I64 => self.r.pick(&UN64).clone(),
                T::F32 => self.r.pick(&UNF32).clone(),
                _ => self.r.pick(&UNF64).clone(),
            };
            self.e(op);
            return;
        }
        if t == T::I32 && self.r.chance(1, 4) {
            let o = self.ty();
            self.expr(o, d - 1);
            self.mid(d);
            self.expr(o, d - 1);
            let op = match o {
                T::I32 => self.r.pick(&CMP32).clone(),
                T::I64 => self.r.pick(&CMP64).clone(),
                T::F32 => self.r.pick(&CMPF32).clone(),
                _ => self.r.pick(&CMPF64).clone(),
            };
            self.e(op);
            return;
        }
        self.expr(t, d - 1);
        self.mid(d);
        let trap = self.p.trap > 0 && self.r.chance(self.p.trap, 1000);
        match t {
            T::I32 | T::I64 => {
                let n = if self.r.chance(4, 5) { 11 } else { 15 };
                let k = self.r.below(n);
                if k >= 11 {
                    if trap {
                        self.expr(t, d - 1);
                    } else if self.r.chance(1, 2) {
                        // a non-zero, non-minus-one divisor
                        let b = 2 + self.r.below(1000) as u64;
                        self.e(cst(t, b));
                    } else {
                        self.expr(t, d - 1);
                        if t == T::I32 {
                            self.e(I::I32Const(0x3ff));
                            self.e(I::I32And);
                            self.e(I::I32Const(1));
                            self.e(I::I32Or);
                        } else {
                            self.e(I::I64Const(0x3ff));
                            self.e(I::I64And);
                            self.e(I::I64Const(1));
                            self.e(I::I64Or);
                        }
                    }
                } else {
                    self.expr(t, d - 1);
                    self.mid(d);
                }
                let op = if t == T::I32 { BIN32[k].clone() } else { BIN64[k].clone() };
                self.e(op);
            }
            T::F32 => {
                self.expr(t, d - 1);
                let op = self.r.pick(&BINF32).clone();
                self.e(op);
            }
            _ => {
                self.expr(t, d - 1);
                let op = self.r.pick(&BINF64).clone();
                self.e(op);
            }
        }
    }
    fn conv(&mut self, t: T, d: u32) {
        let tr = self.p.trap > 0 && self.r.chance(self.p.trap * 3, 1000);
        let tw = self.p.tw;
        let on = |x: T| match x {
            T::I32 => tw[0] > 0,
            T::I64 => tw[1] > 0,
            T::F32 => tw[2] > 0,
            _ => tw[3] > 0,
        };
        let v: Vec<usize> = (0..CONVS.len()).filter(|i| CONVS[*i].2 == t && on(CONVS[*i].1) && (tr || !CONVS[*i].3)).collect();
        if v.is_empty() {
            return self.leaf(t);
        }
        let c = CONVS[*self.r.pick(&v)].clone();
        // reinterpreting computed floats exposes unspecified NaN bits: feed them stored values
        if matches!(c.0, I::I32ReinterpretF32 | I::I64ReinterpretF64) {
            self.leaf(c.1);
        } else {
            self.expr(c.1, d - 1);
        }
        self.e(c.0);
    }
    fn defaults(&mut self, ts: &[T]) {
        for t in ts {
            self.constant(*t);
        }
    }
    /// consume the value of type t on top of the stack
    fn consume(&mut self, t: T, d: u32) {
        match self.r.below(6) {
            0 => self.e(I::Drop),
            1 => {
                let v: Vec<u32> =
                    (0..self.globals.len() as u32).filter(|i| self.globals[*i as usize] == (t, true) && Some(*i) != self.fuel_g).collect();
                if v.is_empty() {
                    self.e(I::Drop)
                } else {
                    let g = *self.r.pick(&v);
                    self.e(I::GlobalSet(g));
                }
            }
            2 if self.p.mem && t.num() && d > 0 => {
                // needs the address below: park the value
                match self.local_of(t) {
                    Some(l) => {
                        self.e(I::LocalSet(l));
                        self.address(0);
                        self.e(I::LocalGet(l));
                        self.store_of(t);
                    }
                    None => self.e(I::Drop),
                }
            }
            _ => match self.local_of(t) {
                Some(l) => self.e(I::LocalSet(l)),
                None => self.e(I::Drop),
            },
        }
    }
    fn store_of(&mut self, t: T) {
        let v: Vec<usize> = (0..STORES.len()).filter(|i| STORES[*i].1 == t).collect();
        let s = STORES[*self.r.pick(&v)];
        let o = self.offset();
        let al = self.r.below(s.2.trailing_zeros() as usize + 1) as u32;
        self.e((s.0)(ma(o, al)));
    }
    fn tget(&mut self, d: u32) {
        if self.r.chance(self.p.oob.max(self.p.trap), 1000) {
            self.expr(T::I32, d.saturating_sub(1));
        } else {
            self.tindex(d);
        }
        self.e(I::TableGet(0));
    }
    fn tindex(&mut self, d: u32) {
        if d > 0 && self.r.chance(1, 3) && self.table_len.is_power_of_two() {
            self.expr(T::I32, d - 1);
            self.e(I::I32Const(self.table_len as i32 - 1));
            self.e(I::I32And);
        } else {
            let k = self.r.below(self.table_len as usize) as i32;
            self.e(I::I32Const(k));
        }
    }
    fn call(&mut self, f: u32, d: u32) {
        let ps = self.sigs[f as usize].params.clone();
        for t in ps {
            self.expr(t, d.saturating_sub(1).min(2));
            self.mid(d);
        }
        self.e(I::Call(f));
    }
    /// call_indirect through a table slot; result type constraint if given
    fn indirect(&mut self, t: Option<T>, d: u32) -> bool {
        let mut v: Vec<(u32, u32)> = vec![];
        for (i, s) in self.slots.iter().enumerate() {
            if let Some(f) = s {
                let sg = &self.sigs[*f as usize];
                if self.fuel_g.is_none() && *f <= self.cur && *f >= self.nimp {
                    continue;
                }
                if self.is_host(*f) {
                    continue;
                }
                if match t {
                    Some(t) => sg.results.len() == 1 && sg.results[0] == t,
                    None => true,
                } {
                    v.push((i as u32, *f));
                }
            }
        }
        if v.is_empty() {
            return false;
        }
        let (slot, f) = *self.r.pick(&v);
        let (ps, rs) = (self.sigs[f as usize].params.clone(), self.sigs[f as usize].results.clone());
        for x in &ps {
            self.expr(*x, d.saturating_sub(1).min(2));
            self.mid(d);
        }
        if self.fuel_g.is_some() && self.r.chance(self.p.trap, 1000) {
            self.expr(T::I32, 1);
        } else {
            self.e(I::I32Const(slot as i32));
            if self.r.chance(1, 3) {
                self.e(I::I32Const(0));
                self.e(I::I32Or);
            }
        }
        let ty = self.type_idx(&ps, &rs);
        self.e(I::CallIndirect { type_index: ty, table_index: 0 });
        if t.is_none() {
            for x in rs.iter().rev() {
                self.consume(*x, d);
            }
        }
        true
    }
    fn hfun(&self, n: &str) -> Option<u32> {
        self.himp.iter().find(|h| h.0 == n).map(|h| h.1)
    }
    /// a host call leaving its i32 result
    fn host(&mut self, d: u32) -> bool {
        if self.himp.is_empty() {
            return false;
        }
        let (name, f) = *self.r.pick(&self.himp.clone());
        match name {
            "fd_advise" => {
                self.expr(T::I32, d.saturating_sub(1).min(2));
                self.mid(d);
                self.expr(T::I64, d.saturating_sub(1).min(1));
                self.leaf(T::I64);
                let k = self.r.below(6) as i32;
                self.e(I::I32Const(k));
            }
            "fd_fdstat_set_rights" => {
                self.leaf(T::I32);
                self.expr(T::I64, d.saturating_sub(1).min(2));
                self.mid(d);
                self.leaf(T::I64);
            }
            "sched_yield" => {}
            "fd_renumber" => {
                self.expr(T::I32, d.saturating_sub(1).min(2));
                self.expr(T::I32, d.saturating_sub(1).min(1));
            }
            "random_get" => {
                self.address(0);
                let n = 1 + self.r.below(24) as i32;
                self.e(I::I32Const(n));
            }
            "clock_time_get" => {
                let k = self.r.below(4) as i32;
                self.e(I::I32Const(k));
                self.leaf(T::I64);
                self.address(0);
            }
            "fd_write" => {
                // iovec at 0x8100.., result at 0x8200
                let n = 1 + self.r.below(3);
                for i in 0..n {
                    let a = self.r.below(0x8000) as i32;
                    let l = self.r.below(40) as i32;
                    self.e(I::I32Const(0x8100 + 8 * i as i32));
                    self.e(I::I32Const(a));
                    self.e(I::I32Store(ma(0, 2)));
                    self.e(I::I32Const(0x8100 + 8 * i as i32));
                    self.e(I::I32Const(l));
                    self.e(I::I32Store(ma(4, 2)));
                }
                self.leaf(T::I32);
                self.e(I::I32Const(0x8100));
                self.e(I::I32Const(n as i32));
                self.e(I::I32Const(0x8200));
            }
            _ => unreachable!(),
        }
        self.e(I::Call(f));
        true
    }
    /// block/loop/if with params pushed before it; leaves `results`
    fn block(&mut self, params: Vec<T>, results: Vec<T>, d: u32) {
        match self.r.below(if self.p.iters > 0 { 3 } else { 2 }) {
            0 => {
                for t in &params {
                    self.expr(*t, d.min(2));
                    self.mid(d);
                }
                let bt = self.bt(&params, &results);
                self.e(I::Block(bt));
                self.ctrl.push(Ctrl { tys: results.clone() });
                self.body(&params, &results, d);
                self.ctrl.pop();
                self.e(I::End);
            }
            1 => {
                for t in &params {
                    self.expr(*t, d.min(2));
                    self.mid(d);
                }
                self.cond(d.min(2));
                let bt = self.bt(&params, &results);
                self.e(I::If(bt));
                self.ctrl.push(Ctrl { tys: results.clone() });
                self.body(&params, &results, d);
                if params != results || self.r.chance(1, 2) {
                    self.e(I::Else);
                    self.body(&params, &results, d);
                }
                self.ctrl.pop();
                self.e(I::End);
            }
            _ => {
                let c = self.new_local(T::I32);
                let n = 1 + self.r.below(self.p.iters as usize) as i32;
                for t in &params {
                    self.expr(*t, d.min(2));
                    self.mid(d);
                }
                self.e(I::I32Const(n));
                self.e(I::LocalSet(c));
                let bt = self.bt(&params, &results);
                self.e(I::Block(bt));
                self.ctrl.push(Ctrl { tys: results.clone() });
                self.e(I::Loop(bt));
                self.ctrl.push(Ctrl { tys: params.clone() });
                // leave when the counter is used up
                self.e(I::LocalGet(c));
                self.e(I::I32Eqz);
                self.e(I::If(BlockType::Empty));
                self.defaults(&results);
                self.e(I::Br(2));
                self.e(I::End);
                self.e(I::LocalGet(c));
                self.e(I::I32Const(1));
                self.e(I::I32Sub);
                self.e(I::LocalSet(c));
                self.body(&params, &results, d);
                // often iterate
                if params == results && self.r.chance(2, 3) {
                    self.cond(1);
                    self.e(I::BrIf(0));
                }
                self.ctrl.pop();
                self.e(I::End);
                self.ctrl.pop();
                self.e(I::End);
            }
        }
    }
    fn body(&mut self, params: &[T], results: &[T], d: u32) {
        let n = self.r.below(3);
        for _ in 0..n {
            self.stmt(d);
        }
        let mut k = 0;
        while k < params.len() && k < results.len() && params[k] == results[k] {
            k += 1;
        }
        if k > 0 && self.r.chance(1, 2) {
            k = self.r.below(k + 1);
        }
        for t in params[k..].iter().rev() {
            self.consume(*t, d);
        }
        let n = self.r.below(2);
        for _ in 0..n {
            self.stmt(d);
        }
        for t in &results[k..] {
            self.expr(*t, d);
            self.mid(d);
        }
    }
    fn branch(&mut self, d: u32) {
        let depth = self.ctrl.len();
        let l = if self.r.chance(1, 3) { self.r.below(depth) } else { self.r.below(depth.min(3)) };
        let tys = self.ctrl[depth - 1 - l].tys.clone();
        let junk = if self.r.chance(1, 4) { self.tys(3) } else { vec![] };
        match self.r.below(8) {
            0..=3 => {
                for t in &tys {
                    self.expr(*t, d.min(2));
                    self.mid(d);
                }
                self.cond(d.min(2));
                self.e(I::BrIf(l as u32));
                for t in tys.iter().rev() {
                    self.consume(*t, d);
                }
            }
            4 | 5 => {
                // conditional region that ends in an unconditional branch
                self.cond(d.min(2));
                self.e(I::If(BlockType::Empty));
                self.ctrl.push(Ctrl { tys: vec![] });
                if d > 0 && self.r.chance(1, 2) {
                    self.stmt(d - 1);
                }
                for t in &junk {
                    self.expr(*t, 1);
                }
                for t in &tys {
                    self.expr(*t, d.min(2));
                    self.mid(d.min(1));
                }
                if l == depth - 1 && self.r.chance(1, 2) {
                    self.e(I::Return)
                } else {
                    self.e(I::Br(l as u32 + 1))
                }
                self.dead(d);
                self.ctrl.pop();
                self.e(I::End);
            }
            6 => {
                // br_table over labels of the same type
                let same: Vec<u32> = (0..depth).filter(|i| self.ctrl[depth - 1 - i].tys == tys).map(|x| x as u32).collect();
                self.e(I::Block(BlockType::Empty));
                self.ctrl.push(Ctrl { tys: vec![] });
                let same: Vec<u32> = {
                    let mut v: Vec<u32> = same.iter().map(|x| x + 1).collect();
                    if tys.is_empty() {
                        v.push(0);
                        v.push(0);
                    }
                    v
                };
                for t in &junk {
                    self.expr(*t, 1);
                }
                for t in &tys {
                    self.expr(*t, d.min(2));
                }
                self.mid(d);
                match self.r.below(3) {
                    0 => self.leaf(T::I32),
                    1 => {
                        self.expr(T::I32, d.min(2));
                        self.e(I::I32Const(7));
                        self.e(I::I32And);
                    }
                    _ => {
                        let k = self.r.below(6) as i32;
                        self.e(I::I32Const(k))
                    }
                }
                let n = self.r.below(6);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(*self.r.pick(&same));
                }
                let df = *self.r.pick(&same);
                self.e(I::BrTable(Cow::Owned(v), df));
                self.dead(d);
                self.ctrl.pop();
                self.e(I::End);
            }
            _ => {
                if self.r.chance(self.p.unreach, 1000) {
                    self.cond(1);
                    self.e(I::If(BlockType::Empty));
                    self.e(I::Unreachable);
                    self.e(I::End);
                    return;
                }
                if self.r.chance(1, 3) {
                    for t in &junk {
                        self.expr(*t, 1);
                    }
                    for t in &tys {
                        self.expr(*t, d.min(2));
                    }
                    self.e(I::Br(l as u32));
                    self.dead(d);
                } else {
                    self.e(I::Nop)
                }
            }
        }
    }
    /// unreachable code: valid whatever follows
    fn dead(&mut self, d: u32) {
        match self.r.below(6) {
            0 if d > 0 => self.stmt(d - 1),
            1 => {
                // polymorphic stack
                self.e(I::I32Add);
                self.e(I::Drop);
            }
            2 => {
                self.expr(T::I32, 1);
                self.e(I::Drop);
            }
            3 => {
                self.e(I::Block(BlockType::Empty));
                self.ctrl.push(Ctrl { tys: vec![] });
                self.expr(T::I64, 1);
                self.e(I::Drop);
                if self.r.chance(1, 2) {
                    self.e(I::Br(0));
                }
                self.ctrl.pop();
                self.e(I::End);
            }
            _ => {}
        }
    }
    /// push values of several types and work on them as a stack machine
    fn mix(&mut self, d: u32) {
        let mut st: Vec<T> = vec![];
        let steps = self.r.range(2, 7);
        for _ in 0..steps {
            let n = st.len();
            match self.r.below(9) {
                0 | 1 => {
                    let t = self.anyty();
                    self.expr(t, d.min(1));
                    st.push(t);
                }
                2 => {
                    let ts = self.tys(self.p.multi);
                    for t in &ts {
                        self.leaf(*t);
                    }
                    st.extend(ts);
                }
                3 if n >= 2 && st[n - 1] == st[n - 2] && st[n - 1].num() => {
                    let t = st.pop().unwrap();
                    let op = match t {
                        T::I32 => BIN32[self.r.below(11)].clone(),
                        T::I64 => BIN64[self.r.below(11)].clone(),
                        T::F32 => self.r.pick(&BINF32).clone(),
                        _ => self.r.pick(&BINF64).clone(),
                    };
                    self.e(op);
                }
                4 if n >= 3 && st[n - 1] == T::I32 && st[n - 2] == st[n - 3] => {
                    st.pop();
                    let t = st.pop().unwrap();
                    self.e(I::TypedSelect(t.vt()));
                }
                5 if n >= 1 => {
                    // a block that takes some of the stack
                    let k = self.r.below(n.min(self.p.multi) + 1);
                    let params: Vec<T> = st.split_off(n - k);
                    let results = self.tys(self.p.multi);
                    let bt = self.bt(&params, &results);
                    self.e(I::Block(bt));
                    self.ctrl.push(Ctrl { tys: results.clone() });
                    self.body(&params, &results, d.saturating_sub(1));
                    if self.r.chance(1, 3) {
                        self.cond(1);
                        self.e(I::BrIf(0));
                    }
                    self.ctrl.pop();
                    self.e(I::End);
                    st.extend(results);
                }
                6 if self.p.e_call > 0 || self.p.s_call > 0 => {
                    // call a function whose parameters are on top
                    let cur = self.cur;
                    let v: Vec<u32> = (self.nimp..self.sigs.len() as u32)
                        .filter(|i| {
                            let s = &self.sigs[*i as usize];
                            (self.fuel_g.is_some() || *i > cur) && st.len() >= s.params.len() && st[st.len() - s.params.len()..] == s.params[..]
                        })
                        .collect();
                    if !v.is_empty() {
                        let f = *self.r.pick(&v);
                        self.e(I::Call(f));
                        let k = self.sigs[f as usize].params.len();
                        st.truncate(n - k);
                        st.extend(self.sigs[f as usize].results.clone());
                    }
                }
                7 if n >= 1 => match self.local_of(st[n - 1]) {
                    Some(l) => self.e(I::LocalTee(l)),
                    None => {}
                },
                _ if d > 0 => self.stmt(d - 1),
                _ => {}
            }
        }
        for t in st.into_iter().rev() {
            self.consume(t, d);
        }
    }
    pub fn stmt(&mut self, d: u32) {
        self.budget -= 1;
        if self.budget < 0 {
            return;
        }
        let p = &self.p;
        let w = [
            p.s_set, p.s_gset, p.s_store, p.s_ctrl, p.s_br, p.s_call, p.s_host, p.s_bulk, p.s_table, p.s_grow, p.s_mix,
        ];
        let tot: u32 = w.iter().sum();
        let mut k = self.r.below(tot.max(1) as usize) as u32;
        let mut c = 0;
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                c = i;
                break;
            }
            k -= x;
        }
        match c {
            0 => {
                if self.p.mem && !self.addr.is_empty() && self.r.chance(1, 5) {
                    self.expr(T::I32, d.min(2));
                    self.e(I::I32Const(0x7ff0));
                    self.e(I::I32And);
                    let a = *self.r.pick(&self.addr);
                    self.e(I::LocalSet(a));
                    return;
                }
                if self.pool == 0 {
                    self.e(I::Nop);
                    return;
                }
                let l = self.r.below(self.pool) as u32;
                let t = self.locals[l as usize];
                if t == T::I32 && self.r.chance(1, 4) {
                    // the common induction-variable shapes
                    self.e(I::LocalGet(l));
                    self.leaf(T::I32);
                    let op = BIN32[self.r.below(11)].clone();
                    self.e(op);
                } else {
                    self.expr(t, d);
                }
                if self.r.chance(1, 5) {
                    self.e(I::LocalTee(l));
                    self.consume(t, d);
                } else {
                    self.e(I::LocalSet(l));
                }
            }
            1 => {
                let v: Vec<u32> = (0..self.globals.len() as u32).filter(|i| self.globals[*i as usize].1 && Some(*i) != self.fuel_g).collect();
                if v.is_empty() {
                    self.e(I::Nop);
                    return;
                }
                let g = *self.r.pick(&v);
                let t = self.globals[g as usize].0;
                self.expr(t, d);
                self.mid(d);
                self.e(I::GlobalSet(g));
            }
            2 if self.p.mem => {
                let t = self.ty();
                self.address(d);
                self.mid(d);
                self.expr(t, d);
                self.store_of(t);
            }
            3 if d > 0 => {
                let params = self.tys(self.p.multi);
                let results = if self.r.chance(1, 3) { params.clone() } else { self.tys(self.p.multi) };
                self.block(params, results.clone(), d - 1);
                for t in results.iter().rev() {
                    self.consume(*t, d);
                }
            }
            4 => self.branch(d),
            5 => {
                let cur = self.cur;
                if self.p.table && self.p.e_ind > 0 && self.r.chance(1, 4) && self.indirect(None, d) {
                    return;
                }
                let v: Vec<u32> = (0..self.sigs.len() as u32)
                    .filter(|i| (self.fuel_g.is_some() || *i > cur || *i < self.nimp) && !self.is_host(*i))
                    .collect();
                if v.is_empty() {
                    self.e(I::Nop);
                    return;
                }
                let f = *self.r.pick(&v);
                self.call(f, d);
                for t in self.sigs[f as usize].results.clone().iter().rev() {
                    self.consume(*t, d);
                }
            }
            6 => {
                if self.host(d) {
                    self.consume(T::I32, d)
                }
            }
            7 if self.p.mem => self.bulk(d),
            8 if self.p.table => self.tstmt(d),
            9 if self.p.mem => {
                match self.r.below(6) {
                    0 => self.e(I::I32Const(0)),
                    1 | 2 => self.e(I::I32Const(1)),
                    3 => {
                        self.expr(T::I32, 1);
                        self.e(I::I32Const(1));
                        self.e(I::I32And);
                    }
                    4 => {
                        let k = self.r.pick(&[-1i32, 65536, 0x7fffffff, i32::MIN, 70000]).clone();
                        self.e(I::I32Const(k))
                    }
                    _ => {
                        let k = self.r.below(3) as i32;
                        self.e(I::I32Const(k))
                    }
                }
                self.e(I::MemoryGrow(0));
                self.consume(T::I32, d);
            }
            10 => self.mix(d),
            _ => {
                let t = self.anyty();
                self.expr(t, d);
                self.consume(t, d);
            }
        }
    }
    fn oob(&mut self) -> bool {
        self.p.oob > 0 && self.r.chance(self.p.oob, 1000)
    }
    fn bulk(&mut self, d: u32) {
        let oob = self.oob();
        let len = |g: &mut Self| {
            if oob {
                let k = *g.r.pick(&[0i32, 1, -1, 0x10000, 0x8000, i32::MIN, 0xffff]);
                g.e(I::I32Const(k));
            } else if g.r.chance(1, 2) {
                let k = g.r.below(80) as i32;
                g.e(I::I32Const(k));
            } else {
                g.expr(T::I32, 1);
                g.e(I::I32Const(0xff));
                g.e(I::I32And);
            }
        };
        match self.r.below(4) {
            0 => {
                self.address(d);
                self.mid(d);
                self.expr(T::I32, d.min(1));
                len(self);
                self.e(I::MemoryFill(0));
            }
            1 | 2 => {
                // often overlapping
                if self.r.chance(1, 2) && !oob {
                    let a = self.r.below(0x7f00) as i32;
                    let b = (a + self.r.below(64) as i32 - 32).max(0);
                    self.e(I::I32Const(a));
                    self.e(I::I32Const(b));
                } else {
                    self.address(d);
                    self.mid(d);
                    self.address(d);
                }
                len(self);
                self.e(I::MemoryCopy { src_mem: 0, dst_mem: 0 });
            }
            _ => {
                if self.npassive == 0 {
                    return;
                }
                let s = self.r.below(self.npassive as usize) as u32;
                if self.p.drops && self.r.chance(1, 12) {
                    self.e(I::DataDrop(s));
                    return;
                }
                self.address(d);
                // segments are 64 bytes long; a dropped one accepts only empty ranges
                if oob || self.r.chance(self.p.trap, 1000) {
                    let a = *self.r.pick(&[0i32, 1, 63, 64, 65, -1]);
                    self.e(I::I32Const(a));
                    let l = *self.r.pick(&[0i32, 1, 64, 65, -1]);
                    self.e(I::I32Const(l));
                } else if self.p.drops {
                    self.e(I::I32Const(0));
                    self.e(I::I32Const(0));
                } else {
                    let a = self.r.below(40) as i32;
                    self.e(I::I32Const(a));
                    let l = self.r.below(25) as i32;
                    self.e(I::I32Const(l));
                }
                self.e(I::MemoryInit { mem: 0, data_index: s });
            }
        }
    }
    fn tstmt(&mut self, d: u32) {
        let bad = self.r.chance(self.p.oob.max(self.p.trap), 1000);
        if self.r.chance(2, 3) {
            if bad {
                self.expr(T::I32, 1)
            } else {
                self.tindex(d)
            }
            self.expr(T::Fn, d.min(2));
            self.e(I::TableSet(0));
        } else {
            let n = self.table_len as usize;
            let a = self.r.below(n + 1);
            let l = self.r.below(n - a + 1);
            self.e(I::I32Const(a as i32));
            self.expr(T::Fn, d.min(2));
            if bad {
                let k = *self.r.pick(&[n as i32 + 1, -1, (n - a) as i32 + 1]);
                self.e(I::I32Const(k));
            } else {
                self.e(I::I32Const(l as i32));
            }
            self.e(I::TableFill(0));
        }
    }
}

fn locals_enc(ls: &[T]) -> Vec<(u32, ValType)> {
    let mut v: Vec<(u32, ValType)> = vec![];
    for t in ls {
        match v.last_mut() {
            Some(x) if x.1 == t.vt() => x.0 += 1,
            _ => v.push((1, t.vt())),
        }
    }
    v
}

pub const HOSTS: [&str; 7] = ["fd_advise", "fd_fdstat_set_rights", "sched_yield", "fd_renumber", "random_get", "clock_time_get", "fd_write"];

pub fn program(r: &mut Rng, prof: &Prof) -> Prog {
    program2(r, prof, false).0
}
/// Also returns the signatures of the defined functions (for linking a second module to this one).
pub fn program2(r: &mut Rng, prof: &Prof, _lib: bool) -> (Prog, Vec<(String, Vec<T>, Vec<T>)>) {
    let p = prof.clone();
    let mut g = G {
        r,
        p,
        types: vec![],
        sigs: vec![],
        nimp: 0,
        himp: vec![],
        globals: vec![],
        fuel_g: None,
        table_len: 0,
        slots: vec![],
        npassive: 0,
        locals: vec![],
        pool: 0,
        addr: vec![],
        ctrl: vec![],
        code: vec![],
        cur: 0,
        budget: 0,
    };
    // imports
    let mut imports = ImportSection::new();
    let linked = g.p.linked.clone();
    for (n, ps, rs) in &linked {
        let ty = g.type_idx(ps, rs);
        imports.import("lib", n, EntityType::Function(ty));
        g.sigs.push(Sig { ty, params: ps.clone(), results: rs.clone() });
    }
    if g.p.e_host > 0 || g.p.s_host > 0 {
        for n in HOSTS {
            let needs_mem = matches!(n, "random_get" | "clock_time_get" | "fd_write");
            // keep unspecified NaN bytes away from the host
            if needs_mem && (!g.p.mem || n == "fd_write" && (g.p.tw[2] > 0 || g.p.tw[3] > 0) && g.r.chance(2, 3)) {
                continue;
            }
            let ps: Vec<T> = hostmodel::guest_params(n).iter().map(|x| if *x { T::I64 } else { T::I32 }).collect();
            let ty = g.type_idx(&ps, &[T::I32]);
            imports.import("wasi_snapshot_preview1", n, EntityType::Function(ty));
            g.himp.push((n, g.sigs.len() as u32));
            g.sigs.push(Sig { ty, params: ps, results: vec![T::I32] });
        }
    }
    g.nimp = g.sigs.len() as u32;
    let nf = g.r.range(g.p.funcs.0, g.p.funcs.1);
    for i in 0..nf {
        let np = g.p.maxp;
        let mut ps = g.tys(np);
        let multi = g.p.multi.max(1);
        let rs = if g.r.chance(1, 3) {
            g.tys(multi)
        } else {
            let t = g.anyty();
            vec![t]
        };
        if i < 2 {
            ps.retain(|t| t.num());
        }
        let ty = g.type_idx(&ps, &rs);
        g.sigs.push(Sig { ty, params: ps, results: rs });
    }
    // globals
    let mut gsec = GlobalSection::new();
    let ng = g.r.range(g.p.globals.0, g.p.globals.1);
    for _ in 0..ng {
        let t = g.ty();
        let mutable = g.r.chance(5, 6);
        let b = arg_bits(g.r, t);
        gsec.global(GlobalType { val_type: t.vt(), mutable, shared: false }, &cexpr(t, b));
        g.globals.push((t, mutable));
    }
    if g.p.fuel > 0 {
        gsec.global(GlobalType { val_type: ValType::I32, mutable: true, shared: false }, &ConstExpr::i32_const(g.p.fuel as i32));
        g.globals.push((T::I32, true));
        g.fuel_g = Some(g.globals.len() as u32 - 1);
    }
    // table
    let mut tables = TableSection::new();
    let mut elems = ElementSection::new();
    if g.p.table {
        g.table_len = *g.r.pick(&[4u32, 8, 8, 10, 16]);
        tables.table(TableType { element_type: RefType::FUNCREF, minimum: g.table_len as u64, maximum: if g.r.chance(1, 2) { Some(g.table_len as u64 + 5) } else { None }, table64: false });
        g.slots = vec![None; g.table_len as usize];
        let nseg = g.r.range(1, 3);
        for _ in 0..nseg {
            let n = g.r.below(g.table_len as usize + 1);
            let off = g.r.below(g.table_len as usize - n + 1);
            let fs: Vec<u32> = (0..n).map(|_| g.nimp + g.r.below(nf) as u32).collect();
            for (i, f) in fs.iter().enumerate() {
                g.slots[off + i] = Some(*f);
            }
            elems.active(if g.r.chance(1, 2) { None } else { Some(0) }, &ConstExpr::i32_const(off as i32), Elements::Functions(&fs));
        }
    }
    // memory and data
    let mut mems = MemorySection::new();
    let mut datas = DataSection::new();
    let mut ndata = 0;
    if g.p.mem {
        let min = 1 + g.r.below(2) as u64;
        mems.memory(MemoryType {
            minimum: min,
            maximum: if g.r.chance(1, 2) { Some(min + g.r.below(4) as u64) } else { None },
            memory64: false,
            shared: false,
            page_size_log2: None,
        });
        let np = g.r.below(3);
        for _ in 0..np {
            let b: Vec<u8> = (0..64).map(|_| g.r.u32() as u8).collect();
            datas.passive(b);
            ndata += 1;
        }
        g.npassive = np as u32;
        let na = g.r.below(3);
        for _ in 0..na {
            let n = g.r.below(200);
            let b: Vec<u8> = (0..n).map(|_| g.r.u32() as u8).collect();
            datas.active(0, &ConstExpr::i32_const(g.r.below(0x8000) as i32), b);
            ndata += 1;
        }
    }
    // functions
    let mut code = CodeSection::new();
    let mut funcs = FunctionSection::new();
    for i in 0..nf {
        let fi = g.nimp + i as u32;
        let (ps, rs, ty) = {
            let s = &g.sigs[fi as usize];
            (s.params.clone(), s.results.clone(), s.ty)
        };
        funcs.function(ty);
        g.cur = fi;
        g.locals = ps.clone();
        let nl = g.r.range(g.p.locals.0, g.p.locals.1);
        for _ in 0..nl {
            let t = g.anyty();
            g.locals.push(t);
        }
        g.pool = g.locals.len();
        g.addr.clear();
        if g.p.mem {
            for _ in 0..2 {
                let a = g.new_local(T::I32);
                g.addr.push(a);
            }
        }
        g.ctrl = vec![Ctrl { tys: rs.clone() }];
        g.code.clear();
        g.budget = 180;
        if let Some(fg) = g.fuel_g {
            g.e(I::GlobalGet(fg));
            g.e(I::I32Eqz);
            g.e(I::If(BlockType::Empty));
            for t in &rs {
                g.e(cst(*t, 7));
            }
            g.e(I::Return);
            g.e(I::End);
            g.e(I::GlobalGet(fg));
            g.e(I::I32Const(1));
            g.e(I::I32Sub);
            g.e(I::GlobalSet(fg));
        }
        if g.p.pad > 0 {
            let n = g.r.below(g.p.pad as usize);
            for _ in 0..n {
                g.e(I::Nop);
            }
        }
        let n = g.r.range(g.p.stmts.0, g.p.stmts.1);
        for _ in 0..n {
            let d = g.p.depth;
            g.stmt(d);
        }
        g.budget = g.budget.max(20);
        for t in &rs {
            let d = g.p.depth;
            g.expr(*t, d);
            g.mid(d);
        }
        // make every local observable
        if g.p.mem && g.p.memdump && g.r.chance(g.p.dump, 100) {
            for l in 0..g.pool {
                let s = match g.locals[l] {
                    T::I32 => I::I32Store(ma(0, 0)),
                    T::I64 => I::I64Store(ma(0, 0)),
                    T::F32 => I::F32Store(ma(0, 0)),
                    T::F64 => I::F64Store(ma(0, 0)),
                    _ => continue,
                };
                g.e(I::I32Const(0x9000 + (i as i32) * 256 + l as i32 * 8));
                g.e(I::LocalGet(l as u32));
                g.e(s);
            }
        }
        g.e(I::End);
        let mut f = Function::new(locals_enc(&g.locals[ps.len()..]));
        for x in &g.code {
            f.instruction(x);
        }
        code.function(&f);
    }
    let mut exports = ExportSection::new();
    let mut lib = vec![];
    for i in 0..nf {
        let n = format!("f{}", i);
        exports.export(&n, ExportKind::Func, g.nimp + i as u32);
        let s = &g.sigs[g.nimp as usize + i];
        lib.push((n, s.params.clone(), s.results.clone()));
    }
    if g.p.mem {
        exports.export("memory", ExportKind::Memory, 0);
    }
    let mut start = None;
    if g.p.start {
        for i in 0..nf {
            let s = &g.sigs[g.nimp as usize + i];
            if s.params.is_empty() && s.results.is_empty() {
                start = Some(StartSection { function_index: g.nimp + i as u32 });
            }
        }
    }
    let mut m = Module::new();
    let mut types = TypeSection::new();
    for (p, r) in &g.types {
        types.function(p.iter().map(|t| t.vt()), r.iter().map(|t| t.vt()));
    }
    m.section(&types);
    if g.nimp > 0 {
        m.section(&imports);
    }
    m.section(&funcs);
    if g.p.table {
        m.section(&tables);
    }
    if g.p.mem {
        m.section(&mems);
    }
    if !g.globals.is_empty() {
        m.section(&gsec);
    }
    m.section(&exports);
    if let Some(s) = start {
        m.section(&s);
    }
    if g.p.table {
        m.section(&elems);
    }
    if g.p.mem {
        m.section(&DataCountSection { count: ndata });
    }
    m.section(&code);
    if g.p.mem {
        m.section(&datas);
    }
    let wasm = m.finish();
    let mut calls = vec![];
    let nc = g.r.range(1, 4);
    for _ in 0..nc {
        let i = g.r.below(nf);
        let s = &g.sigs[g.nimp as usize + i];
        if s.params.iter().any(|t| !t.num()) {
            continue;
        }
        let ps = s.params.clone();
        let args = ps.iter().map(|t| (*t, arg_bits(g.r, *t))).collect();
        calls.push(Call { name: format!("f{}", i), args });
    }
    if calls.is_empty() {
        let ps = g.sigs[g.nimp as usize].params.clone();
        let args = ps.iter().map(|t| (*t, arg_bits(g.r, *t))).collect();
        calls.push(Call { name: "f0".into(), args });
    }
    let host_seed = g.r.u64();
    (Prog { wasm, calls, host_seed }, lib)
}
