use crate::app::App;
use clap::{ErrorKind, Parser};
use mcrt::driver::Ctx;

/// Arguments.
const ARGS: &[&str] = &[
    "-q", "--def", "--def=d2.ogma", "f1.ogma", "f2 x,y.ogma", "--", "d1,d3.ogma", "--quiet", "-", "--nope", "-x", "é.ogma", "a=b",
    "--def=*.ogma,b;c", "help", "--qui", "--def=", "-f1", "", "--quiet=true", "-d",
];

enum Expect {
    Ok { quiet: bool, def: Option<Vec<String>>, files: Vec<String> },
    Err,
    /// What the argument parser does is its own business.
    Any,
}

fn expect(p: &[u32]) -> Expect {
    let mut quiet = 0;
    let mut def: Option<Vec<String>> = None;
    let mut files = Vec::new();
    let mut it = p.iter().map(|&i| ARGS[i as usize]);
    let mut any = false;
    while let Some(a) = it.next() {
        match a {
            "-q" | "--quiet" => quiet += 1,
            "--def" => match it.next() {
                // an empty name is odd enough
                Some("") => any = true,
                Some(v) if v == "-" || !v.starts_with('-') => def.get_or_insert_with(Vec::new).push(v.to_string()),
                // the name is missing, but perhaps another one follows
                Some(_) => return Expect::Any,
                None => return if any || def.is_some() { Expect::Any } else { Expect::Err },
            },
            "--def=" | "--quiet=true" => any = true,
            a if a.starts_with("--def=") => def.get_or_insert_with(Vec::new).push(a["--def=".len()..].to_string()),
            "--" => {
                files.extend(it.by_ref().map(|s| s.to_string()));
            }
            a if a.len() > 1 && a.starts_with('-') => {
                return if any { Expect::Any } else { Expect::Err };
            }
            f => files.push(f.to_string()),
        }
    }
    if quiet > 1 || any {
        return Expect::Any;
    }
    Expect::Ok { quiet: quiet == 1, def, files }
}

fn run(p: &[u32]) -> Result<(), String> {
    let args: Vec<&str> = std::iter::once("ogma").chain(p.iter().map(|&i| ARGS[i as usize])).collect();
    let r = App::try_parse_from(&args);
    match (expect(p), r) {
        // options are never taken for names
        (Expect::Any, Ok(a)) if !args.contains(&"--") => {
            match a.def.iter().flatten().chain(&a.files).find(|x| x.len() > 1 && x.starts_with('-')) {
                Some(x) => Err(format!("{args:?}: {x:?} is taken for a name: {a:?}")),
                None => Ok(()),
            }
        }
        (Expect::Any, _) => Ok(()),
        (Expect::Err, Err(e)) if !matches!(e.kind(), ErrorKind::DisplayHelp | ErrorKind::DisplayVersion) => Ok(()),
        (Expect::Err, r) => Err(format!("{args:?} should be refused, is {:?}", r.map_err(|e| e.kind()))),
        (Expect::Ok { quiet, def, files }, Ok(a)) => {
            if (a.quiet, &a.def, &a.files) == (quiet, &def, &files) {
                Ok(())
            } else {
                Err(format!("{args:?} is understood as {a:?}, should be quiet {quiet}, def {def:?}, files {files:?}"))
            }
        }
        (Expect::Ok { .. }, Err(e)) => Err(format!("{args:?} is refused: {:?}", e.kind())),
    }
}

pub fn parse(cx: &mut Ctx) {
    let max = cx.pick(4, 5);
    for d in 0..=max {
        cx.sequences(
            &format!("cli-{d}-arguments"),
            ARGS.len(),
            d,
            |s| format!("{:?}", s.iter().map(|&i| ARGS[i as usize]).collect::<Vec<_>>()),
            run,
        );
    }
    // long lines: many files, many definitions
    cx.cases(
        "cli-many",
        200,
        |i| format!("{i} files and {i} definitions, interleaved"),
        |i| {
            let p: Vec<u32> = (0..i).flat_map(|k| if k % 2 == 0 { vec![3, 1, 6] } else { vec![2, 4] }).collect();
            run(&p).map(|_| i)
        },
    );
}
