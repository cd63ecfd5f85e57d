//! Runs entries

#[cfg(not(feature = "native"))]
pub fn main(entries: &[(&str, fn())]) {
    // refers to every entry, so that all are in the emitted code
    let i = std::env::args().count();
    (entries[i % entries.len()].1)();
}

/// Arguments: entry, parameters, file with one list of values per line
#[cfg(feature = "native")]
pub fn main(entries: &[(&str, fn())]) {
    use std::io::Write;
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect() };
    let f = entries.iter().find(|e| e.0 == a[1]).expect("entry").1;
    let text = std::fs::read_to_string(&a[3]).unwrap();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<crate::sym::Stop>().is_none() {
            eprintln!("{}", i);
        }
    }));
    for line in text.lines() {
        let params = nums(&a[2]);
        let values = nums(line);
        crate::sym::PARAMS.with(|p| *p.borrow_mut() = params);
        crate::sym::VALUES.with(|p| *p.borrow_mut() = (values, 0));
        crate::sym::OBS.with(|p| p.borrow_mut().clear());
        let r = std::panic::catch_unwind(f);
        let obs = crate::sym::OBS.with(|p| p.borrow().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let res = match r {
            Ok(()) => "OK".to_string(),
            Err(e) => match e.downcast_ref::<crate::sym::Stop>() {
                Some(crate::sym::Stop::Fail(m)) => format!("FAIL {}", m),
                Some(crate::sym::Stop::Assume) => "ASSUME".to_string(),
                Some(crate::sym::Stop::Exhausted) => "EXHAUSTED".to_string(),
                None => "PANIC".to_string(),
            },
        };
        println!("\n@OBS {}", obs);
        println!("@RESULT {}", res);
        std::io::stdout().flush().unwrap();
    }
}
