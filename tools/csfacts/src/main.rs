//! Records what the disassembler library answers about sample encodings (development-time tool).
use capstone::{
    arch::{self, arm::*, BuildsCapstone, DetailsArchInsn},
    Capstone,
};

fn main() {
    let a = Capstone::new().arm().mode(ArchMode::Arm).detail(true).build().unwrap();
    let t = Capstone::new().arm().mode(ArchMode::Thumb).detail(true).build().unwrap();
    let a64 = Capstone::new().arm64().mode(arch::arm64::ArchMode::Arm).detail(true).build().unwrap();
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let (mode, hex) = l.trim().split_once(' ').unwrap();
        let b: Vec<u8> =
            (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let cs = match mode {
            "armv7" => &a,
            "thumb" => &t,
            _ => &a64,
        };
        let v = cs.disasm_all(&b, 0x1000000).unwrap();
        let mut out = Vec::new();
        for i in v.iter() {
            let d = cs.insn_detail(i).unwrap();
            let ad = d.arch_detail();
            let (cc, ops) = match ad.arm() {
                Some(x) => {
                    let ops: Vec<String> = x
                        .operands()
                        .map(|o| match o.op_type {
                            ArmOperandType::Reg(r) => format!("[\"Reg\",{}]", r.0),
                            ArmOperandType::Imm(k) => format!("[\"Imm\",{k}]"),
                            ArmOperandType::Mem(m) => {
                                format!("[\"Mem\",{},{},{},{}]", m.base().0, m.index().0, m.scale(), m.disp())
                            }
                            _ => "[\"Other\"]".to_string(),
                        })
                        .collect();
                    (x.cc() as u32, ops)
                }
                None => (0, vec![]),
            };
            out.push(format!(
                "{{\"len\":{},\"addr\":{},\"id\":{},\"mn\":{:?},\"groups\":{:?},\"rr\":{:?},\"rw\":{:?},\"cc\":{},\"ops\":[{}]}}",
                i.len(),
                i.address() - 0x1000000,
                i.id().0,
                format!("{} {}", i.mnemonic().unwrap_or(""), i.op_str().unwrap_or("")),
                d.groups().iter().map(|g| g.0).collect::<Vec<_>>(),
                d.regs_read().iter().map(|g| g.0).collect::<Vec<_>>(),
                d.regs_write().iter().map(|g| g.0).collect::<Vec<_>>(),
                cc,
                ops.join(",")
            ));
        }
        println!("{{\"mode\":\"{mode}\",\"hex\":\"{hex}\",\"ins\":[{}]}}", out.join(","));
    }
}
