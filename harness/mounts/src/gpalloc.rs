//! C30: the register allocator, mounted as it is over stand-ins for registers and slots.

#![allow(dead_code, unused)]

mod bytecodegen {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum BinOpK {
        Add,
        Sub,
        Mul,
        Div,
        BitOr,
        BitAnd,
        BitXor,
        Rem,
        Exp,
    }
}

mod jitgen {
    pub use crate::codegen::jitgen::SlotId;
}

mod codegen {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
    #[repr(u8)]
    pub enum GP {
        Rax = 0,
        Rcx,
        Rdx,
        Rbx,
        Rsp,
        Rbp,
        Rsi,
        Rdi,
        R8,
        R9,
        R10,
        R11,
        R12,
        R13,
        R14,
        R15,
    }

    pub mod jitgen {
        use super::GP;
        use crate::bytecodegen::BinOpK;
        use pbt::{Cx, Prop, R, Src, Suite, ensure, fail, note, same};

        #[path = "/repo/monoruby/src/codegen/jitgen/gp_alloc.rs"]
        mod gp_alloc;

        use gp_alloc::{BinOpInst, GpAction, GpRegFile, allocate_run};

        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash, Default)]
        #[repr(transparent)]
        pub struct SlotId(pub u16);

        impl SlotId {
            pub fn new(i: u16) -> SlotId {
                SlotId(i)
            }
        }

        /// A value nobody wrote.
        const JUNK: u64 = u64::MAX;

        const KINDS: &[BinOpK] = &[
            BinOpK::Add,
            BinOpK::Sub,
            BinOpK::Mul,
            BinOpK::Div,
            BinOpK::BitOr,
            BinOpK::BitAnd,
            BinOpK::BitXor,
            BinOpK::Rem,
        ];

        /// The result of an operation: different operands give different results.
        fn apply(kind: BinOpK, l: u64, r: u64) -> u64 {
            let mut x = (kind as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            for v in [l, r] {
                x = (x ^ v).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                x ^= x >> 29;
                x = x.wrapping_mul(0x94d0_49bb_1331_11eb);
                x ^= x >> 32;
            }
            x >> 1
        }

        /// The slots, the registers and what the slots should hold.
        struct Machine {
            home: Vec<u64>,
            regs: [u64; 16],
            /// `None` for a slot that is dead.
            want: Vec<Option<u64>>,
        }

        impl Machine {
            fn new(slots: usize, live: usize) -> Machine {
                let home: Vec<u64> = (0..slots).map(|i| if i < live { i as u64 + 1000 } else { JUNK }).collect();
                let want = (0..slots).map(|i| (i < live).then_some(i as u64 + 1000)).collect();
                Machine { home, regs: [JUNK; 16], want }
            }
            fn kill(&mut self, sp: usize) {
                for i in sp..self.want.len() {
                    self.want[i] = None;
                }
            }
            fn live(&self) -> Vec<u16> {
                (0..self.want.len() as u16).filter(|i| self.want[*i as usize].is_some()).collect()
            }
            fn spill(&mut self, reg: GP, slot: SlotId) {
                self.home[slot.0 as usize] = self.regs[reg as usize];
            }
            /// All live slots are at home.
            fn settled(&self, when: &str) -> R {
                for (i, w) in self.want.iter().enumerate() {
                    if let Some(w) = w {
                        ensure!(self.home[i] == *w, "{when}, slot {i} does not hold its value");
                    }
                }
                Ok(())
            }
        }

        fn scratch(reg: GP) -> bool {
            matches!(reg, GP::R8 | GP::R9 | GP::R10 | GP::R11)
        }

        // ---- whole runs

        fn runs(src: &mut Src, cx: &mut Cx) -> R {
            let slots = src.range(3, 14);
            let live = src.range(2, slots);
            let mut plan = Machine::new(slots, live);
            let mut insts = vec![];
            while insts.len() < 40 && src.more(8) {
                src.begin();
                let alive = plan.live();
                // Recent results are likely operands.
                let mut operand = |src: &mut Src| {
                    if src.bool() || insts.is_empty() {
                        src.pick(&alive)
                    } else {
                        let k = insts.len() - 1 - src.usize(insts.len().min(4));
                        let i: &BinOpInst = &insts[k];
                        if alive.contains(&i.dst.0) { i.dst.0 } else { src.pick(&alive) }
                    }
                };
                let lhs = operand(src);
                let rhs = operand(src);
                let dst = match src.below(4) {
                    0 => lhs,
                    1 => rhs,
                    _ => src.usize(slots) as u16,
                };
                let next_sp = match src.below(3) {
                    0 => slots as u16,
                    1 => dst + 1,
                    _ => src.range(dst as usize + 1, slots) as u16,
                };
                let kind = src.pick(KINDS);
                let v = apply(kind, plan.want[lhs as usize].unwrap(), plan.want[rhs as usize].unwrap());
                plan.want[dst as usize] = Some(v);
                plan.kill(next_sp as usize);
                note!(cx, "%{dst} = %{lhs} {kind:?} %{rhs}, stack pointer {next_sp}");
                insts.push(BinOpInst {
                    kind,
                    dst: SlotId::new(dst),
                    lhs: SlotId::new(lhs),
                    rhs: SlotId::new(rhs),
                    next_sp: SlotId::new(next_sp),
                });
                src.end();
            }
            let actions = allocate_run(&insts);
            let mut m = Machine::new(slots, live);
            let mut todo = insts.iter();
            let (mut loads, mut spills) = (0, 0);
            for a in &actions {
                note!(cx, "  {a:?}");
                match *a {
                    GpAction::Load { slot, reg, .. } => {
                        ensure!(scratch(reg), "{reg:?} is not a scratch register");
                        m.regs[reg as usize] = m.home[slot.0 as usize];
                        loads += 1;
                    }
                    GpAction::Spill { reg, slot } => {
                        m.spill(reg, slot);
                        spills += 1;
                    }
                    GpAction::BinOp { kind, dst, lhs, rhs } => {
                        let Some(i) = todo.next() else { fail!("an operation nobody asked for") };
                        ensure!(scratch(dst), "{dst:?} is not a scratch register");
                        same!(kind, i.kind, "the operation");
                        let l = m.want[i.lhs.0 as usize].unwrap();
                        let r = m.want[i.rhs.0 as usize].unwrap();
                        ensure!(m.regs[lhs as usize] == l, "{lhs:?} does not hold %{} for {i:?}", i.lhs.0);
                        ensure!(m.regs[rhs as usize] == r, "{rhs:?} does not hold %{} for {i:?}", i.rhs.0);
                        let v = apply(kind, m.regs[lhs as usize], m.regs[rhs as usize]);
                        m.regs[dst as usize] = v;
                        m.want[i.dst.0 as usize] = Some(v);
                        m.kill(i.next_sp.0 as usize);
                    }
                }
            }
            ensure!(todo.next().is_none(), "operations were left out");
            same!(m.want, plan.want, "the values computed");
            m.settled("in the end")?;
            if insts.len() >= 3 {
                cx.nontrivial();
            }
            if spills > 4 {
                cx.label("evictions");
            }
            if loads < 2 * insts.len() {
                cx.label("a register reused");
            }
            Ok(())
        }

        // ---- the register file, used step by step as the compiler uses it

        struct Driver {
            rf: GpRegFile,
            m: Machine,
        }

        impl Driver {
            /// What must hold between any two steps.
            fn check(&self, step: &str) -> R {
                let mut homes = self.m.home.clone();
                let mut seen = vec![];
                for (reg, slot) in self.rf.dirty_residents() {
                    ensure!(!seen.contains(&slot), "{step}: slot {} is written back twice", slot.0);
                    ensure!(!self.rf.is_free(reg), "{step}: {reg:?} holds slot {} and is free", slot.0);
                    seen.push(slot);
                    homes[slot.0 as usize] = self.m.regs[reg as usize];
                    same!(self.rf.dirty_reg_of(slot), Some(reg), "{step}: the register with the unsaved slot {}", slot.0);
                }
                let mut used = vec![];
                for i in 0..self.m.want.len() {
                    let slot = SlotId::new(i as u16);
                    if let Some(reg) = self.rf.reg_of(slot) {
                        ensure!(scratch(reg), "{step}: {reg:?} is not a scratch register");
                        ensure!(!used.contains(&reg), "{step}: {reg:?} holds two slots");
                        ensure!(!self.rf.is_free(reg), "{step}: {reg:?} holds slot {i} and is free");
                        used.push(reg);
                        if let Some(w) = self.m.want[i] {
                            ensure!(self.m.regs[reg as usize] == w, "{step}: {reg:?} is said to hold slot {i} and does not");
                        }
                    }
                    if !seen.contains(&slot) {
                        same!(self.rf.dirty_reg_of(slot), None, "{step}: the register with the unsaved slot {i}");
                    }
                    if let Some(w) = self.m.want[i] {
                        ensure!(homes[i] == w, "{step}: after a write-back slot {i} would not hold its value");
                    }
                }
                same!(self.rf.is_empty(), used.is_empty(), "{step}: whether no register is in use");
                for reg in [GP::R8, GP::R9, GP::R10, GP::R11] {
                    same!(self.rf.is_free(reg), !used.contains(&reg), "{step}: whether {reg:?} is free");
                }
                Ok(())
            }

            fn alloc(&mut self, pinned: &[GP]) -> Result<GP, String> {
                let (reg, spill) = self.rf.alloc_reg(pinned);
                if let Some((r, s)) = spill {
                    self.m.spill(r, s);
                }
                ensure_ok(scratch(reg), || format!("{reg:?} is not a scratch register"))?;
                ensure_ok(!pinned.contains(&reg), || format!("{reg:?} was handed out although it is in use"))?;
                ensure_ok(self.rf.is_free(reg), || format!("{reg:?} was handed out but not freed"))?;
                self.m.regs[reg as usize] = JUNK;
                Ok(reg)
            }

            fn operand(&mut self, slot: u16, pinned: &[GP]) -> Result<GP, String> {
                let s = SlotId::new(slot);
                if let Some(reg) = self.rf.reg_of(s) {
                    return Ok(reg);
                }
                let reg = self.alloc(pinned)?;
                self.m.regs[reg as usize] = self.m.home[slot as usize];
                self.rf.bind(reg, s, false);
                Ok(reg)
            }

            fn sp(&mut self, sp: u16) {
                self.rf.free_above_sp(SlotId::new(sp));
                self.m.kill(sp as usize);
            }
        }

        fn ensure_ok(c: bool, msg: impl FnOnce() -> String) -> R {
            if c { Ok(()) } else { Err(msg()) }
        }

        fn steps(src: &mut Src, cx: &mut Cx) -> R {
            let slots = src.range(3, 12);
            let live = src.range(2, slots);
            let mut d = Driver { rf: if src.bool() { GpRegFile::new() } else { GpRegFile::default() }, m: Machine::new(slots, live) };
            let mut n = 0u64;
            let mut evicted = 0;
            while n < 60 && src.more(16) {
                src.begin();
                n += 1;
                let alive = d.m.live();
                let step;
                match src.weighted(&[12, 4, 4, 3, 3, 2, 2, 2]) {
                    0 => {
                        let (lhs, rhs) = (src.pick(&alive), src.pick(&alive));
                        let dst = match src.below(4) {
                            0 => lhs,
                            1 => rhs,
                            _ => src.usize(slots) as u16,
                        };
                        let kind = src.pick(KINDS);
                        step = format!("%{dst} = %{lhs} {kind:?} %{rhs}");
                        note!(cx, "{step}");
                        let l = d.operand(lhs, &[])?;
                        d.check("with the first operand loaded")?;
                        let r = d.operand(rhs, &[l])?;
                        d.check("with both operands loaded")?;
                        ensure!(d.m.regs[l as usize] == d.m.want[lhs as usize].unwrap(), "{l:?} does not hold %{lhs}");
                        ensure!(d.m.regs[r as usize] == d.m.want[rhs as usize].unwrap(), "{r:?} does not hold %{rhs}");
                        let v = apply(kind, d.m.regs[l as usize], d.m.regs[r as usize]);
                        // The operands stay in use until the result is there.
                        d.rf.invalidate(SlotId::new(dst));
                        same!(d.rf.reg_of(SlotId::new(dst)), None, "the register of a slot about to be written");
                        d.m.want[dst as usize] = None;
                        let keep = [d.m.regs[l as usize], d.m.regs[r as usize]];
                        let reg = d.alloc(&[l, r])?;
                        ensure!(keep == [d.m.regs[l as usize], d.m.regs[r as usize]], "an operand was overwritten");
                        d.m.regs[reg as usize] = v;
                        d.m.want[dst as usize] = Some(v);
                        d.rf.bind(reg, SlotId::new(dst), true);
                        same!(d.rf.reg_of(SlotId::new(dst)), Some(reg), "the register of the result");
                    }
                    1 => {
                        // a result of a call is parked in a register
                        let dst = src.usize(slots) as u16;
                        step = format!("%{dst} = result of a call");
                        note!(cx, "{step}");
                        d.rf.invalidate(SlotId::new(dst));
                        d.m.want[dst as usize] = None;
                        let reg = d.alloc(&[])?;
                        let v = apply(BinOpK::Exp, n, 0);
                        d.m.regs[reg as usize] = v;
                        d.m.want[dst as usize] = Some(v);
                        d.rf.bind(reg, SlotId::new(dst), true);
                    }
                    2 => {
                        // a value written to the stack by other means
                        let dst = src.usize(slots) as u16;
                        step = format!("%{dst} written in memory");
                        note!(cx, "{step}");
                        d.rf.invalidate(SlotId::new(dst));
                        let v = apply(BinOpK::Exp, n, 1);
                        d.m.home[dst as usize] = v;
                        d.m.want[dst as usize] = Some(v);
                        same!(d.rf.reg_of(SlotId::new(dst)), None, "the register of a slot written in memory");
                    }
                    3 => {
                        let slot = src.usize(slots) as u16;
                        step = format!("%{slot} synchronised");
                        note!(cx, "{step}");
                        let had = d.rf.reg_of(SlotId::new(slot));
                        same!(d.rf.sync(SlotId::new(slot)), had, "the register synchronised");
                        if let Some(reg) = had {
                            d.m.spill(reg, SlotId::new(slot));
                        }
                        same!(d.rf.reg_of(SlotId::new(slot)), had, "the register after it was synchronised");
                        same!(d.rf.dirty_reg_of(SlotId::new(slot)), None, "unsaved register after it was synchronised");
                    }
                    4 => {
                        let sp = src.range(2, slots) as u16;
                        step = format!("stack pointer {sp}");
                        note!(cx, "{step}");
                        d.sp(sp);
                        for i in sp..slots as u16 {
                            same!(d.rf.reg_of(SlotId::new(i)), None, "the register of the dead slot {i}");
                        }
                    }
                    5 => {
                        step = "flush".to_string();
                        note!(cx, "flush");
                        for (reg, slot) in d.rf.take_dirty_spills() {
                            d.m.spill(reg, slot);
                        }
                        ensure!(d.rf.is_empty(), "registers in use after a flush");
                        d.m.settled("after a flush")?;
                        d.m.regs = [JUNK; 16];
                    }
                    6 => {
                        // a copy is independent
                        step = "copy".to_string();
                        note!(cx, "copy");
                        let mut other = d.rf.clone();
                        for (reg, slot) in other.dirty_residents() {
                            same!(d.rf.dirty_reg_of(slot), Some(reg), "the copied register of slot {}", slot.0);
                        }
                        other.take_dirty_spills();
                        if src.bool() {
                            other.bind(GP::R9, SlotId::new(0), true);
                        }
                    }
                    _ => {
                        let slot = src.pick(&alive);
                        step = format!("%{slot} loaded");
                        note!(cx, "{step}");
                        let reg = d.operand(slot, &[])?;
                        ensure!(d.m.regs[reg as usize] == d.m.want[slot as usize].unwrap(), "{reg:?} does not hold %{slot}");
                    }
                }
                d.check(&step)?;
                if d.m.live().is_empty() {
                    break;
                }
                src.end();
            }
            for (reg, slot) in d.rf.take_dirty_spills() {
                d.m.spill(reg, slot);
            }
            d.m.settled("in the end")?;
            if n >= 6 {
                cx.nontrivial();
            }
            Ok(())
        }

        pub fn main() {
            pbt::main(&[Prop {
                id: "C30",
                rule: "a run of at least three operations, or at least six steps on the register file",
                assumptions: &["slots above the stack pointer are not read before they are written again", "the stand-ins for registers, slots and operators", "rustc"],
                level: "exploration",
                known: &[],
                suites: &[
                    Suite { name: "runs", cases: 4_000_000, run: runs },
                    Suite { name: "steps", cases: 2_500_000, run: steps },
                ],
            }]);
        }
    }
}

fn main() {
    codegen::jitgen::main();
}
