#[macro_use]
mod rt;
mod driver;
mod fe;
mod plug;
mod interpose;
mod model;
mod props;
mod vos;

fn main() {
    // addresses must not differ between runs
    unsafe {
        if std::env::var_os("XISIM_NOASLR").is_none() {
            libc::personality(0x0040000);
            let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut pa: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            pa.push(std::ptr::null());
            std::env::set_var("XISIM_NOASLR", "1");
            libc::execv(exe.as_ptr(), pa.as_ptr());
        }
    }
    std::env::remove_var("RUST_BACKTRACE");
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    });
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let b = std::env::var("XISIM_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 420 } else { 30 });
            driver::check(find(&args[2]), &tier, seed, b)
        }
        Some("replay") => driver::replay(&props, &args[2]),
        Some("one") => {
            driver::one(find(&args[2]), args[3].parse().unwrap(), args.len() > 4);
            0
        }
        Some("min") => {
            let th = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
            driver::min_one(find(&args[2]), args[3].parse().unwrap(), th, args.get(4).and_then(|s| s.parse().ok()).unwrap_or(20));
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: xisim check ID | replay FILE | one ID SEED [trace]");
            2
        }
    };
    std::process::exit(code);
}
