use iced_x86::*;
use std::io::BufRead;

fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let (bits, hex) = l.split_once(' ').unwrap();
        let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let mut d = Decoder::with_ip(bits.parse().unwrap(), &bytes, 0x10000, DecoderOptions::NONE);
        let i = d.decode();
        let mut f = InstructionInfoFactory::new();
        let info = f.info_options(&i, InstructionInfoOptions::NO_MEMORY_USAGE);
        let used: Vec<String> = info.used_registers().iter().map(|u| format!("[\"{:?}\", \"{:?}\"]", u.register(), u.access())).collect();
        println!(
            "{{\"bits\": {bits}, \"hex\": \"{hex}\", \"len\": {}, \"invalid\": {}, \"flow\": \"{:?}\", \"jcc\": {}, \"iprel\": {}, \"code\": \"{:?}\", \"op0\": \"{:?}\", \"used\": [{}], \"near\": {}, \"base\": \"{:?}\", \"index\": \"{:?}\", \"dispsize\": {}}}",
            i.len(), i.is_invalid(), i.flow_control(), i.is_jcc_short_or_near(), i.is_ip_rel_memory_operand(), i.code(),
            i.op0_register(), used.join(", "), i.near_branch_target() as i64 - 0x10000, i.memory_base(), i.memory_index(), i.memory_displ_size()
        );
    }
}
