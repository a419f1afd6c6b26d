//! Prints what the distribution crate of /repo hands to its users.
mod distro {
    #![allow(dead_code)]
    include!(concat!(env!("OUT_DIR"), "/distro/src/lib.rs"));
}

fn main() {
    let modules: std::collections::BTreeMap<String, String> = distro::modules().into_iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v).into_owned())).collect();
    println!(
        "{}",
        serde_json::json!({
            "certs": serde_json::to_value(&*distro::KRAS_CERTS).unwrap(),
            "modules": modules,
            "config": String::from_utf8_lossy(distro::CONFIG),
            "version": distro::VERSION,
        })
    );
}
