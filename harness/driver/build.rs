fn main() {
    for f in ["memcpy", "memmove", "memset", "memcmp", "bcmp"] {
        println!("cargo:rustc-link-arg=-Wl,--wrap={f}");
    }
    for f in ["getrandom", "syscall", "clock_gettime", "sched_yield", "nanosleep", "clock_nanosleep"] {
        println!("cargo:rustc-link-arg=-Wl,--export-dynamic-symbol={f}");
    }
    println!("cargo:rustc-link-arg=-no-pie");
}
