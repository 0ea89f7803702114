//! A tiny EVM assembler for generated programs.
use ethereum_types::{Address, U256};

use crate::refevm::evm::from_addr;
use crate::refevm::precompiles::be32;

#[derive(Clone, Default, Debug)]
pub struct Asm {
    pub c: Vec<u8>,
    /// (position of a PUSH2 operand, label)
    fix: Vec<(usize, usize)>,
    labels: Vec<Option<usize>>,
    /// Data appended after the code, and PUSH2 operands that refer to it.
    data: Vec<Vec<u8>>,
    dfix: Vec<(usize, usize)>,
}

impl Asm {
    pub fn op(&mut self, o: u8) -> &mut Self {
        self.c.push(o);
        self
    }
    pub fn ops(&mut self, o: &[u8]) -> &mut Self {
        self.c.extend_from_slice(o);
        self
    }
    /// Shortest push.
    pub fn push(&mut self, v: impl Into<U256>) -> &mut Self {
        let v: U256 = v.into();
        let n = (v.bits() + 7) / 8;
        self.pushn(v, n)
    }
    /// PUSHn (n may exceed the minimal width).
    pub fn pushn(&mut self, v: U256, n: usize) -> &mut Self {
        self.c.push(0x5f + n as u8);
        self.c.extend_from_slice(&be32(v)[32 - n..]);
        self
    }
    pub fn addr(&mut self, a: Address) -> &mut Self {
        self.pushn(from_addr(a), 20)
    }
    pub fn label(&mut self) -> usize {
        self.labels.push(None);
        self.labels.len() - 1
    }
    /// Places a label with a JUMPDEST.
    pub fn place(&mut self, l: usize) -> &mut Self {
        self.labels[l] = Some(self.c.len());
        self.c.push(0x5b);
        self
    }
    pub fn push_label(&mut self, l: usize) -> &mut Self {
        self.c.push(0x61);
        self.fix.push((self.c.len(), l));
        self.c.extend([0, 0]);
        self
    }
    pub fn add_data(&mut self, d: Vec<u8>) -> usize {
        self.data.push(d);
        self.data.len() - 1
    }
    pub fn push_data(&mut self, d: usize) -> &mut Self {
        self.c.push(0x61);
        self.dfix.push((self.c.len(), d));
        self.c.extend([0, 0]);
        self
    }
    /// Copies data to memory at `at`.
    pub fn load_data(&mut self, d: Vec<u8>, at: usize) -> &mut Self {
        let n = d.len();
        let i = self.add_data(d);
        self.push(n).push_data(i).push(at).op(0x39)
    }
    pub fn mstore(&mut self, at: usize) -> &mut Self {
        self.push(at).op(0x52)
    }
    pub fn finish(mut self) -> Vec<u8> {
        for (p, l) in &self.fix {
            let t = self.labels[*l].expect("unplaced label");
            self.c[*p] = (t >> 8) as u8;
            self.c[*p + 1] = t as u8;
        }
        for (i, d) in self.data.iter().enumerate() {
            let t = self.c.len();
            for (p, j) in &self.dfix {
                if *j == i {
                    self.c[*p] = (t >> 8) as u8;
                    self.c[*p + 1] = t as u8;
                }
            }
            self.c.extend_from_slice(d);
        }
        self.c
    }
}
