use symrt as s;
#[no_mangle]
pub extern "C" fn hv_smoke() {
    let b = s::bytes_in::<3>(b'0', b'9', "x");
    let st = std::str::from_utf8(&b).unwrap();
    let n: u32 = st.parse().unwrap();
    s::check(n < 1000, "lt1000");
    s::check(n != 537, "ne537");
    let mut m = std::collections::HashMap::new();
    m.insert(st.to_string(), 1);
    m.insert("123".to_string(), 2);
    s::observe_u64(m.len() as u64, "len");
    if m.len() == 1 { s::cover("one"); } else { s::cover("two"); }
}
#[no_mangle]
pub extern "C" fn hv_instant() {
    use std::str::FromStr;
    let mut n = b"20240101000000000.commit".to_vec();
    s::fill_in(&mut n[13..17], b'0', b'9', "d");
    let name = String::from_utf8(n).unwrap();
    let r = hudi_core::timeline::instant::Instant::from_str(&name);
    match r { Ok(i) => { s::cover("ok"); s::check(i.file_name() == name, "roundtrip"); s::observe_u64(i.epoch_millis as u64, "ms"); }
      Err(_) => s::cover("err") }
}
