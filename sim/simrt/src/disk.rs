//! Faulty disk and captured stdout. File data is really stored in the run's scratch directory
//! through raw system calls; the plan decides which calls fail, are short or are interrupted.

use crate::Config;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// The call fails with this errno.
    Err(i32),
    /// At most this many bytes are written.
    Short(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Open,
    Write,
    Mkdir,
    Close,
    Sync,
    Seek,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct FaultPlan {
    /// (operation, ordinal among operations of this kind, fault)
    pub at: Vec<(Op, u64, Fault)>,
    /// Bytes that fit before ENOSPC.
    pub capacity: Option<u64>,
    /// Every write is limited to this many bytes.
    pub max_write: Option<u64>,
    /// Every n-th write is interrupted (EINTR).
    pub eintr_every: Option<u64>,
}

pub struct Disk {
    pub captured: Vec<u8>,
    pub enabled: bool,
    scratch: Vec<u8>,
    out: FaultPlan,
    dsk: FaultPlan,
    n: [u64; 6],
    n_out: u64,
    used: u64,
    tracked: [bool; 1024],
    pub fired: Vec<(&'static str, u64)>,
    pub writes: u64,
    pub opens: u64,
}

impl Disk {
    pub fn new(cfg: &Config) -> Self {
        Disk {
            captured: Vec::new(),
            enabled: true,
            scratch: cfg.scratch.as_bytes().to_vec(),
            out: cfg.stdout_faults.clone(),
            dsk: cfg.disk_faults.clone(),
            n: [0; 6],
            n_out: 0,
            used: 0,
            tracked: [false; 1024],
            fired: Vec::new(),
            writes: 0,
            opens: 0,
        }
    }
    pub fn reset_plan(&mut self, p: FaultPlan) {
        self.dsk = p;
        self.n = [0; 6];
        self.used = 0;
    }
    pub fn fire(&mut self, k: &'static str) {
        for f in self.fired.iter_mut() {
            if f.0 == k {
                f.1 += 1;
                return;
            }
        }
        self.fired.push((k, 1));
    }
    pub fn in_scratch(&self, path: &[u8]) -> bool {
        !self.scratch.is_empty() && path.starts_with(&self.scratch)
    }
    pub fn is_tracked(&self, fd: i32) -> bool {
        fd >= 0 && (fd as usize) < self.tracked.len() && self.tracked[fd as usize]
    }
    pub fn track(&mut self, fd: i32, on: bool) {
        if fd >= 0 && (fd as usize) < self.tracked.len() {
            self.tracked[fd as usize] = on;
        }
    }
    fn name(op: Op, f: Fault) -> &'static str {
        match (op, f) {
            (Op::Open, _) => "disk_open_error",
            (Op::Mkdir, _) => "disk_mkdir_error",
            (Op::Close, _) => "disk_close_error",
            (Op::Sync, _) => "disk_sync_error",
            (Op::Seek, _) => "disk_seek_error",
            (Op::Write, Fault::Short(_)) => "disk_short_write",
            (Op::Write, Fault::Err(libc::EINTR)) => "disk_write_eintr",
            (Op::Write, Fault::Err(libc::ENOSPC)) => "disk_write_enospc",
            (Op::Write, Fault::Err(_)) => "disk_write_error",
        }
    }
    /// Decides a non-write operation: Some(errno) = fail.
    pub fn decide(&mut self, op: Op) -> Option<i32> {
        if !self.enabled {
            return None;
        }
        let k = self.n[op as usize];
        self.n[op as usize] += 1;
        if op == Op::Open {
            self.opens += 1;
        }
        for &(o, n, f) in &self.dsk.at {
            if o == op && n == k {
                if let Fault::Err(e) = f {
                    self.fire(Self::name(op, f));
                    return Some(e);
                }
            }
        }
        None
    }
    /// Decides a write of `len` bytes: Err(errno) or Ok(bytes to write).
    pub fn decide_write(&mut self, len: u64) -> Result<u64, i32> {
        if !self.enabled || len == 0 {
            return Ok(len);
        }
        let k = self.n[Op::Write as usize];
        self.n[Op::Write as usize] += 1;
        self.writes += 1;
        let mut allow = len;
        if let Some(m) = self.dsk.max_write {
            if allow > m {
                allow = m.max(1);
                self.fire("disk_short_write");
            }
        }
        if let Some(e) = self.dsk.eintr_every {
            if k % e.max(2) == e.max(2) - 1 {
                self.fire("disk_write_eintr");
                return Err(libc::EINTR);
            }
        }
        let at = self.dsk.at.clone();
        for (o, n, f) in at {
            if o == Op::Write && n == k {
                match f {
                    Fault::Err(e) => {
                        self.fire(Self::name(Op::Write, f));
                        return Err(e);
                    }
                    Fault::Short(b) => {
                        if allow > b.max(1) {
                            allow = b.max(1);
                            self.fire(Self::name(Op::Write, f));
                        }
                    }
                }
            }
        }
        if let Some(c) = self.dsk.capacity {
            let left = c.saturating_sub(self.used);
            if left == 0 {
                self.fire("disk_full");
                return Err(libc::ENOSPC);
            }
            if allow > left {
                allow = left;
                self.fire("disk_full_torn_write");
            }
        }
        self.used += allow;
        Ok(allow)
    }
    /// Captures a write to stdout. Returns bytes accepted or -errno.
    pub fn stdout_write(&mut self, buf: &[u8]) -> i64 {
        let k = self.n_out;
        self.n_out += 1;
        let mut allow = buf.len() as u64;
        if self.enabled && allow > 0 {
            if let Some(e) = self.out.eintr_every {
                if k % e.max(2) == e.max(2) - 1 {
                    self.fire("stdout_eintr");
                    return -(libc::EINTR as i64);
                }
            }
            if let Some(m) = self.out.max_write {
                if allow > m.max(1) {
                    allow = m.max(1);
                    self.fire("stdout_short_write");
                }
            }
            let at = self.out.at.clone();
            for (o, n, f) in at {
                if o == Op::Write && n == k {
                    match f {
                        Fault::Err(e) => {
                            self.fire(if e == libc::EINTR { "stdout_eintr" } else { "stdout_error" });
                            return -(e as i64);
                        }
                        Fault::Short(b) => {
                            if allow > b.max(1) {
                                allow = b.max(1);
                                self.fire("stdout_short_write");
                            }
                        }
                    }
                }
            }
        }
        if self.captured.len() < (8 << 20) {
            self.captured.extend_from_slice(&buf[..allow as usize]);
        }
        allow as i64
    }
}
