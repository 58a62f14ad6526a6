//! Options from the environment.
use crate::fix::*;
use crate::store::*;
use hudi_core::table::builder::TableBuilder;
use symrt as s;

/// A cloud storage option comes from explicit storage options, else generic ones, else an environment variable;
/// upper-case spellings, as in the environment, name the same option.
#[no_mangle]
pub extern "C" fn hv_conf_env() {
    let name = ["AWS_REGION", "AZURE_STORAGE_TOKEN", "GOOGLE_BUCKET"][s::choose(3, "option")];
    let lower = name.to_ascii_lowercase();
    let env = s::choose(2, "environment") == 1;
    if env {
        std::env::set_var(name, "e");
    }
    std::env::set_var("XAWS_REGION", "x");
    std::env::set_var("HOODIE_X", "x");
    std::env::set_var("hoodie.x", "x");
    std::env::set_var("AWS", "x");
    let dir = s::choose(3, "configuration directory");
    if dir > 0 {
        std::env::set_var("HUDI_CONF_DIR", ["/c/d", "/none"][dir - 1]);
    }
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(&[("hoodie.table.type", "COPY_ON_WRITE")]));
    for (d, v) in [("etc/hudi/conf", "default"), ("c/d", "given")] {
        st.files.push((format!("{d}/hudi-defaults.conf"), format!("hoodie.some={v}\n{name} glob\n").into()));
    }
    st.install();
    let mut b = TableBuilder::from_base_uri(BASE);
    let v: [u8; 2] = s::bytes_in(b'a', b'd', "value");
    let v: Vec<String> = v.iter().map(|c| (*c as char).to_string()).collect();
    // the same option is not given in two spellings
    let key = if s::choose(2, "spelling") == 1 { name } else { lower.as_str() };
    let on = s::choose(4, "given");
    if on & 1 == 1 {
        b = b.with_storage_option(key, v[0].clone());
    }
    if on & 2 == 2 {
        b = b.with_option(key, v[1].clone());
    }
    let t = block_on(b.build()).unwrap();
    let so = t.storage_options();
    let e = match on {
        1 | 3 => Some(v[0].as_str()),
        2 => Some(v[1].as_str()),
        _ if env => Some("e"),
        _ => None,
    };
    s::check(so.get(&lower).map(|x| x.as_str()) == e, "value of the storage option");
    s::check(so.keys().all(|k| e.is_some() && k.to_ascii_lowercase() == lower), "no other storage options");
    let ho = t.hudi_options();
    s::check(ho.get("hoodie.some").map(|x| x.as_str()) == [Some("default"), Some("given"), None][dir], "global defaults of the configuration directory");
    s::check(!ho.contains_key("hoodie.x") && ho.keys().all(|k| k.starts_with("hoodie.")), "no Hudi settings from the environment");
    s::cover(if e.is_some() { "set" } else { "unset" });
}
