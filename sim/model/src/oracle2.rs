//! Oracles over printing, plotting and restarts.

use crate::hist::*;
use crate::oracle::*;
use crate::plan::*;

// ---------------------------------------------------------------------------------------------
// Plot recording

/// What the plot must contain, followed step by step.
pub fn plot_recording(ai: usize, a: &ActorHist, gap: Option<usize>, o: &mut Out) {
    let (p, init) = match (&a.params, &a.initial) {
        (Some(p), Some(i)) => (p, i),
        _ => return,
    };
    let gap = match gap {
        None => {
            if init.plot_len.is_some() {
                o.bad("plot-unrequested", format!("actor {}: a plot exists although none was requested", ai));
            }
            return;
        }
        Some(g) => g,
    };
    if init.plot_len != Some(1) {
        o.bad("plot-initial", format!("actor {}: the plot of a new instance has {:?} points (expected 1)", ai, init.plot_len));
        return;
    }
    // (evals, generation) of the recorded points
    let mut pts: Vec<(usize, usize)> = vec![(0, 0)];
    let mut vals: Vec<Option<(Snap, bool)>> = vec![Some((init.clone(), true))];
    let mut med: Option<f64> = None;
    let mut meds: Vec<Option<f64>> = vec![None];
    for (i, s) in a.steps.iter().enumerate() {
        let b = prev(a, i);
        let ev = &a.evals[s.e0..s.e1];
        if matches!(s.out, Outcome::LibPanic(_)) {
            return;
        }
        let mut add = |pts: &mut Vec<(usize, usize)>, vals: &mut Vec<Option<(Snap, bool)>>, meds: &mut Vec<Option<f64>>, e: usize, g: usize, m: Option<f64>, snap: Option<Snap>| {
            if pts.last().unwrap().1 != g {
                pts.push((e, g));
                vals.push(snap.map(|s| (s, true)));
                meds.push(m);
            }
        };
        let posdef = match &s.out {
            Outcome::Term(t) => t.reasons.contains(&R::PosDefCov),
            _ => false,
        };
        if s.op.is_gen() {
            let cs = chunks(ev, p.lambda);
            if let Some(c) = cs.last() {
                med = Some(median_of(c));
            }
            if s.after.gen > b.gen {
                let last = *pts.last().unwrap();
                if s.after.gen <= 1 || s.after.fevals >= last.0.saturating_add(gap) {
                    add(&mut pts, &mut vals, &mut meds, s.after.fevals, s.after.gen, med, Some(s.after.clone()));
                }
            }
        } else if s.op.is_run() {
            let cs = chunks(ev, p.lambda);
            let full = cs.len() - (posdef && !cs.is_empty()) as usize;
            for k in 0..full {
                let e = b.fevals + (k + 1) * p.lambda;
                let g = b.gen + k + 1;
                let last = *pts.last().unwrap();
                med = Some(median_of(cs[k]));
                if g <= 1 || e >= last.0.saturating_add(gap) {
                    let sn = if k + 1 == full { Some(s.after.clone()) } else { None };
                    add(&mut pts, &mut vals, &mut meds, e, g, med, sn);
                }
            }
            if let Some(c) = cs.last() {
                med = Some(median_of(c));
            }
            if matches!(s.out, Outcome::Term(_)) {
                add(&mut pts, &mut vals, &mut meds, s.after.fevals, s.after.gen, med, Some(s.after.clone()));
            }
        } else if s.op == OpK::AddPlot {
            add(&mut pts, &mut vals, &mut meds, s.after.fevals, s.after.gen, med, Some(s.after.clone()));
        } else if s.op == OpK::ClearPlot {
            let l = pts.len() - 1;
            pts = vec![pts[l]];
            vals = vec![vals[l].clone()];
            meds = vec![meds[l]];
            o.n("plot_clears");
        }
        o.n("plot_length_checks");
        if s.after.plot_len != Some(pts.len()) {
            o.bad("plot-length", format!(
                "actor {} step {} ({:?}, generation {}, {} evaluations): the plot has {:?} points, expected {} (gap {}; last expected at {} evaluations)",
                ai, i, s.op, s.after.gen, s.after.fevals, s.after.plot_len, pts.len(), gap, pts.last().unwrap().0));
            return;
        }
        if let Some(d) = &s.after.plot_debug {
            plot_content(ai, i, d, &pts, &vals, &meds, p, o);
            if o.v.len() > 4 {
                return;
            }
        }
    }
}

fn median_of(c: &[EvalRec]) -> f64 {
    let mut v: Vec<f64> = c.iter().map(|e| e.v).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len();
    if n % 2 == 0 {
        (v[n / 2 - 1] + v[n / 2]) / 2.0
    } else {
        v[n / 2]
    }
}

/// `name: [1.0, 2.0]` out of a Debug string; None when it is not there.
fn debug_list(d: &str, name: &str) -> Option<Vec<f64>> {
    let k = format!("{}: [", name);
    let at = d.find(&k)? + k.len();
    let end = at + d[at..].find(']')?;
    let body = &d[at..end];
    if body.contains('[') {
        return None;
    }
    if body.trim().is_empty() {
        return Some(vec![]);
    }
    body.split(',').map(|x| x.trim().parse::<f64>().ok()).collect()
}
fn debug_lists(d: &str, name: &str) -> Option<Vec<Vec<f64>>> {
    let k = format!("{}: [[", name);
    let at = d.find(&k)? + k.len();
    let end = at + d[at..].find("]]")?;
    d[at..end]
        .split("], [")
        .map(|l| l.split(',').map(|x| x.trim().parse::<f64>().ok()).collect::<Option<Vec<f64>>>())
        .collect()
}

fn plot_content(ai: usize, i: usize, d: &str, pts: &[(usize, usize)], vals: &[Option<(Snap, bool)>], meds: &[Option<f64>], p: &Params, o: &mut Out) {
    let close = |x: f64, y: f64| (x.is_nan() && y.is_nan()) || x == y || (x - y).abs() <= 2e-20 + 1e-12 * y.abs();
    let mut bad = |w: &str, m: String| o.bad("plot-content", format!("actor {} step {}: recorded {}: {}", ai, i, w, m));
    let fe = match debug_list(d, "function_evals") {
        Some(f) => f,
        None => return,
    };
    if fe.len() != pts.len() {
        bad("function_evals", format!("{} entries for {} points", fe.len(), pts.len()));
        return;
    }
    for k in 0..pts.len() {
        if fe[k] != pts[k].0 as f64 {
            bad("function_evals", format!("point {} was recorded at {} evaluations, expected {}", k, fe[k], pts[k].0));
            return;
        }
    }
    let single: [(&str, fn(&Snap) -> f64); 3] = [
        ("best_function_value", |s| s.cur.as_ref().map(|c| c.1).unwrap_or(f64::NAN)),
        ("sigma", |s| s.sigma),
        ("axis_ratio", |s| s.axis_ratio),
    ];
    for (name, get) in single {
        if let Some(l) = debug_list(d, name) {
            if l.len() != pts.len() {
                bad(name, format!("{} entries for {} points", l.len(), pts.len()));
                continue;
            }
            for k in 0..pts.len() {
                if let Some((s, _)) = &vals[k] {
                    if !close(l[k], get(s)) {
                        bad(name, format!("point {} is {:e}, the state had {:e}", k, l[k], get(s)));
                        break;
                    }
                }
            }
        }
    }
    if let Some(l) = debug_list(d, "median_function_value") {
        for k in 0..pts.len().min(l.len()) {
            let want = meds[k].unwrap_or(f64::NAN);
            if vals[k].is_some() && !close(l[k], want) && !want.is_infinite() {
                bad("median_function_value", format!("point {} is {:e}, the generation had {:e}", k, l[k], want));
                break;
            }
        }
    }
    let n = p.dim;
    let multi: [(&str, fn(&Snap, usize, usize) -> f64); 3] = [
        ("mean_dimensions", |s, j, _| s.mean[j]),
        ("coord_axis_scales", |s, j, n| s.cov[j * n + j].sqrt()),
        ("sqrt_eigenvalues", |s, j, _| {
            let mut e: Vec<f64> = s.eig.clone();
            e.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
            e[j].sqrt()
        }),
    ];
    for (name, get) in multi {
        if let Some(ls) = debug_lists(d, name) {
            if ls.len() != n || ls.iter().any(|l| l.len() != pts.len()) {
                bad(name, "has the wrong shape".into());
                continue;
            }
            'o: for j in 0..n {
                for k in 0..pts.len() {
                    if let Some((s, _)) = &vals[k] {
                        let w = get(s, j, n);
                        if !close(ls[j][k], w) && !((ls[j][k] - w).abs() <= 1e-9 * w.abs()) {
                            bad(name, format!("point {} of dimension {} is {:e}, the state had {:e}", k, j, ls[j][k], w));
                            break 'o;
                        }
                    }
                }
            }
        }
    }
    o.add("plot_points_compared", pts.len() as u64);
}

// ---------------------------------------------------------------------------------------------
// Saving the plot

fn png_ok(b: &[u8]) -> Result<(), String> {
    if b.len() < 57 || &b[..8] != b"\x89PNG\r\n\x1a\n" {
        return Err("not a PNG file".into());
    }
    let mut p = 8;
    let mut end = false;
    let mut idat = 0;
    while p + 12 <= b.len() {
        let l = u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
        if p + 12 + l > b.len() {
            return Err("truncated chunk".into());
        }
        let t = &b[p + 4..p + 8];
        let crc = u32::from_be_bytes([b[p + 8 + l], b[p + 9 + l], b[p + 10 + l], b[p + 11 + l]]);
        if crc32(&b[p + 4..p + 8 + l]) != crc {
            return Err("chunk with a wrong checksum".into());
        }
        if t == b"IDAT" {
            idat += l;
        }
        if t == b"IEND" {
            end = true;
        }
        p += 12 + l;
    }
    if !end || p != b.len() || idat == 0 {
        return Err("incomplete PNG file".into());
    }
    Ok(())
}
fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b {
        c ^= x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}

pub fn saves(ai: usize, a: &ActorHist, ops: &[Op], o: &mut Out) {
    let mut sv: Vec<bool> = ops
        .iter()
        .filter_map(|x| match x {
            Op::SavePlot { dirs, .. } => Some(*dirs),
            _ => None,
        })
        .collect();
    sv.reverse();
    for (i, s) in a.steps.iter().enumerate() {
        if s.op != OpK::Save {
            continue;
        }
        let dirs = sv.pop().unwrap_or(true);
        let b = prev(a, i);
        if s.after.plot_len != b.plot_len || s.after.plot_debug != b.plot_debug {
            o.bad("save-plot-changed", format!("actor {} step {}: saving the plot changed it", ai, i));
        }
        if b.plot_len.is_none() {
            continue;
        }
        o.n("plot_saves");
        let faults = (s.f1 - s.f0) & 0xffff_ffff;
        let soft = (s.f1 - s.f0) >> 32;
        let missing = !dirs && !s.dir.0;
        if !dirs && !s.dir.0 {
            o.n("saves_without_directory");
            if s.dir.1 {
                o.bad("save-dirs", format!("actor {} step {}: saving without being asked to create directories created one", ai, i));
            }
        }
        if s.dir.0 && !s.dir.1 {
            o.bad("save-dirs", format!("actor {} step {}: saving removed the directory", ai, i));
        }
        let reference = match &s.reference {
            Some(r) => r,
            None => {
                o.bad("save-unfaulted", format!("actor {} step {}: saving without any fault wrote no file", ai, i));
                continue;
            }
        };
        if s.retry_ok != Some(true) {
            o.bad("save-retry", format!("actor {} step {}: saving again after the faults stopped failed", ai, i));
            continue;
        }
        if let Err(e) = png_ok(reference) {
            o.bad("save-image", format!("actor {} step {}: the saved image is broken: {}", ai, i, e));
        }
        match &s.out {
            Outcome::Saved(Ok(())) => {
                o.n("saves_ok");
                if faults + soft > 0 {
                    o.n("saves_ok_despite_faults");
                }
                match &s.file {
                    None => o.bad("save-lost", format!("actor {} step {}: save_to_file returned Ok but there is no file ({} faults injected)", ai, i, faults)),
                    Some(f) if faults > 0 && reference.starts_with(f) && reference.len() - f.len() <= 8192 => o.bad("save-tail", format!(
                        "actor {} step {}: save_to_file returned Ok although the last {} bytes of the image were not written ({} faults injected)",
                        ai, i, reference.len() - f.len(), faults)),
                    Some(f) if f != reference => o.bad("save-torn", format!(
                        "actor {} step {}: save_to_file returned Ok but the file has {} bytes that differ from the {} bytes of a fault-free save ({} faults injected)",
                        ai, i, f.len(), reference.len(), faults)),
                    _ => {}
                }
            }
            Outcome::Saved(Err(e)) => {
                o.n("saves_failed");
                if faults == 0 && !missing {
                    o.bad("save-spurious", format!("actor {} step {}: save_to_file failed without any fault other than {} retryable ones (EINTR, short writes): {}", ai, i, soft, e));
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Printing

struct Line {
    gen: usize,
    evals: usize,
    best: Option<f64>,
    axis: f64,
    sigma: f64,
    min: f64,
    max: f64,
}

fn info_line(l: &str) -> Option<Line> {
    let f: Vec<&str> = l.split('|').map(|x| x.trim()).collect();
    if f.len() != 7 {
        return None;
    }
    Some(Line {
        gen: f[0].parse().ok()?,
        evals: f[1].parse().ok()?,
        best: if f[2].is_empty() { None } else { Some(f[2].parse().ok()?) },
        axis: f[3].parse().ok()?,
        sigma: f[4].parse().ok()?,
        min: f[5].parse().ok()?,
        max: f[6].parse().ok()?,
    })
}

/// The given text equals the value at the text's own precision.
fn near(x: f64, y: f64, rel: f64) -> bool {
    (x.is_nan() && y.is_nan()) || x == y || (x - y).abs() <= rel * y.abs() || (x.abs() < 1e-300 && y.abs() < 1e-300)
}

fn line_vs_snap(l: &Line, s: &Snap, n: usize) -> Option<String> {
    if l.gen != s.gen || l.evals != s.fevals {
        return Some(format!("generation {} and {} evaluations, the instance is at {} and {}", l.gen, l.evals, s.gen, s.fevals));
    }
    match (l.best, &s.cur) {
        (None, None) => {}
        (Some(b), Some(c)) if near(b, c.1, 1e-5) => {}
        (b, c) => return Some(format!("best value {:?}, the instance has {:?}", b, c.as_ref().map(|c| c.1))),
    }
    if !near(l.axis, s.axis_ratio, 1e-3) {
        return Some(format!("axis ratio {:e}, the instance has {:e}", l.axis, s.axis_ratio));
    }
    if !near(l.sigma, s.sigma, 1e-3) {
        return Some(format!("sigma {:e}, the instance has {:e}", l.sigma, s.sigma));
    }
    let sd: Vec<f64> = (0..n).map(|i| s.sigma * s.cov[i * n + i].sqrt()).collect();
    if sd.iter().all(|v| v.is_finite()) {
        let mn = sd.iter().cloned().fold(f64::INFINITY, f64::min);
        let mx = sd.iter().cloned().fold(0.0, f64::max);
        if !near(l.min, mn, 1e-3) || !near(l.max, mx, 1e-3) {
            return Some(format!("standard deviations {:e}..{:e}, the instance has {:e}..{:e}", l.min, l.max, mn, mx));
        }
    }
    None
}

pub fn printing(ai: usize, a: &ActorHist, gap: Option<usize>, stdout: &[u8], o: &mut Out) {
    let (p, _init) = match (&a.params, &a.initial) {
        (Some(p), Some(i)) => (p, i),
        _ => return,
    };
    let text = |x: usize, y: usize| String::from_utf8_lossy(&stdout[x..y]).to_string();
    // header
    let s0 = a.steps.first().map(|s| s.s0).unwrap_or(a.s1);
    let head = text(a.s0, s0);
    match gap {
        None => {
            if !head.is_empty() {
                o.bad("print-unrequested", format!("actor {}: building an instance without printing wrote {:?}", ai, head));
            }
        }
        Some(_) => {
            o.n("print_headers");
            let want = format!("dimension={}, lambda={}, seed={}", p.dim, p.lambda, p.seed);
            if !head.contains(&want) || !head.ends_with('\n') {
                o.bad("print-header", format!("actor {}: the header {:?} does not announce {:?}", ai, head, want));
            }
        }
    }
    // evaluations at the last cadence line, and at the last line of any kind
    let mut last = 0usize;
    let mut shown: Option<usize> = None;
    for (i, s) in a.steps.iter().enumerate() {
        if matches!(s.out, Outcome::LibPanic(_)) {
            return;
        }
        let b = prev(a, i);
        let t = text(s.s0, s.s1);
        let lines: Vec<&str> = t.lines().collect();
        if !t.is_empty() && !t.ends_with('\n') {
            o.bad("print-torn", format!("actor {} step {}: output does not end with a newline: {:?}", ai, i, t));
        }
        let infos: Vec<Line> = lines.iter().filter_map(|l| info_line(l)).collect();
        let completed = s.after.gen > b.gen;
        match s.op {
            OpK::Next | OpK::NextPar => {
                let g = match gap {
                    None => {
                        if !t.is_empty() {
                            o.bad("print-unrequested", format!("actor {} step {}: printed {:?} although printing is off", ai, i, t));
                        }
                        continue;
                    }
                    Some(g) => g,
                };
                if !completed {
                    if !t.is_empty() {
                        o.bad("print-phantom", format!("actor {} step {}: printed {:?} without completing a generation", ai, i, t));
                    }
                    continue;
                }
                o.n("print_cadence_checks");
                let due = s.after.fevals >= last.saturating_add(g);
                let early = s.after.gen < 4;
                if lines.len() > 1 || infos.len() != lines.len() {
                    o.bad("print-lines", format!("actor {} step {}: one generation printed {:?}", ai, i, t));
                    continue;
                }
                if (due || early) && infos.is_empty() {
                    o.bad("print-missing", format!("actor {} step {}: nothing printed at generation {}, {} evaluations (last line at {}, gap {})", ai, i, s.after.gen, s.after.fevals, last, g));
                }
                if !due && !early && !infos.is_empty() {
                    o.bad("print-early", format!("actor {} step {}: a line was printed at {} evaluations (last line at {}, gap {})", ai, i, s.after.fevals, last, g));
                }
                if due {
                    last = s.after.fevals;
                }
                if due || early {
                    shown = Some(s.after.fevals);
                }
                if let Some(l) = infos.first() {
                    if let Some(m) = line_vs_snap(l, &s.after, p.dim) {
                        o.bad("print-data", format!("actor {} step {}: the printed line says {}", ai, i, m));
                    }
                }
            }
            OpK::Run | OpK::RunPar => {
                let g = match gap {
                    None => {
                        if !t.is_empty() {
                            o.bad("print-unrequested", format!("actor {} step {}: printed {:?} although printing is off", ai, i, t));
                        }
                        continue;
                    }
                    Some(g) => g,
                };
                let term = match &s.out {
                    Outcome::Term(t) => t,
                    _ => return,
                };
                // the expected sequence of lines
                let mut want: Vec<(usize, usize)> = vec![];
                let d = s.after.gen - b.gen;
                for k in 1..=d {
                    let (e, gn) = (b.fevals + k * p.lambda, b.gen + k);
                    if e >= last.saturating_add(g) {
                        want.push((gn, e));
                        last = e;
                        shown = Some(e);
                    } else if gn < 4 {
                        want.push((gn, e));
                        shown = Some(e);
                    }
                }
                if shown != Some(s.after.fevals) {
                    want.push((s.after.gen, s.after.fevals));
                }
                let got: Vec<(usize, usize)> = infos.iter().map(|l| (l.gen, l.evals)).collect();
                o.n("print_cadence_checks");
                if got != want {
                    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    o.bad("print-sequence", format!("actor {} step {}: run printed {} lines, expected {}; first difference at line {}: {:?} instead of {:?} (gap {})", ai, i, got.len(), want.len(), k, got.get(k), want.get(k), g));
                } else if let Some(l) = infos.last() {
                    if let Some(m) = line_vs_snap(l, &s.after, p.dim) {
                        o.bad("print-data", format!("actor {} step {}: the last printed line says {}", ai, i, m));
                    }
                }
                final_lines(ai, i, &lines, s, term, o);
            }
            OpK::PrintInitial => {
                let want = format!("dimension={}, lambda={}, seed={}", p.dim, p.lambda, p.seed);
                if !t.contains(&want) {
                    o.bad("print-header", format!("actor {} step {}: {:?} does not announce {:?}", ai, i, t, want));
                }
            }
            OpK::PrintInfo => {
                if infos.len() != 1 || lines.len() != 1 {
                    o.bad("print-lines", format!("actor {} step {}: print_info printed {:?}", ai, i, t));
                } else if let Some(m) = line_vs_snap(&infos[0], &s.after, p.dim) {
                    o.bad("print-data", format!("actor {} step {}: print_info says {}", ai, i, m));
                }
                o.n("print_info_checks");
            }
            OpK::PrintFinal => {
                if let Some(l) = infos.first() {
                    if let Some(m) = line_vs_snap(l, &s.after, p.dim) {
                        o.bad("print-data", format!("actor {} step {}: print_final_info says {}", ai, i, m));
                    }
                }
                let due = shown != Some(s.after.fevals);
                if infos.len() != due as usize {
                    let m = if due { "once" } else { "again" };
                    o.bad(if due { "print-missing" } else { "print-early" }, format!("actor {} step {}: print_final_info prints {} lines for the state at {} evaluations, which should not be printed {} (last line at {:?})", ai, i, infos.len(), s.after.fevals, m, shown).replace("should not be printed once", "should be printed once"));
                }
                best_lines(ai, i, &lines, s, o);
            }
            _ => {
                if !t.is_empty() {
                    o.bad("print-unrequested", format!("actor {} step {} ({:?}): printed {:?}", ai, i, s.op, t));
                }
            }
        }
        if o.v.len() > 6 {
            return;
        }
    }
}

fn best_lines(ai: usize, i: usize, lines: &[&str], s: &Step, o: &mut Out) {
    for (name, v) in [("Current", &s.after.cur), ("Overall", &s.after.best)] {
        let k = format!("{} best function value: ", name);
        let l = lines.iter().find(|l| l.starts_with(&k));
        match (l, v) {
            (Some(l), Some((_, v))) => {
                if l[k.len()..].trim().parse::<f64>().map(|x| near(x, *v, 1e-12)) != Ok(true) {
                    o.bad("print-final", format!("actor {} step {}: {:?}, but the value is {:e}", ai, i, l, v));
                }
                o.n("print_final_checks");
            }
            (Some(l), None) => o.bad("print-final", format!("actor {} step {}: {:?}, but there is none", ai, i, l)),
            (None, Some(_)) => o.bad("print-final", format!("actor {} step {}: the {} best value is not printed", ai, i, name)),
            _ => {}
        }
    }
}

fn final_lines(ai: usize, i: usize, lines: &[&str], s: &Step, t: &Term, o: &mut Out) {
    let k = "Terminated with reason(s): ";
    match lines.iter().filter(|l| l.starts_with(k)).collect::<Vec<_>>()[..] {
        [l] => {
            let got: Vec<&str> = l[k.len()..].split(", ").map(|x| x.trim_matches('`')).collect();
            let want: Vec<String> = t.reasons.iter().map(|r| format!("{:?}", r)).collect();
            if got != want.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
                o.bad("print-final", format!("actor {} step {}: printed reasons {:?}, returned {:?}", ai, i, got, want));
            }
        }
        ref x => o.bad("print-final", format!("actor {} step {}: {} termination lines", ai, i, x.len())),
    }
    best_lines(ai, i, lines, s, o);
}

// ---------------------------------------------------------------------------------------------
// Restarts

#[derive(Clone, Debug, Default)]
pub struct RunInfo {
    pub no: usize,
    pub lambda: usize,
    pub sigma0: f64,
    pub seed: u64,
    pub reasons: Vec<String>,
    pub fevals: usize,
    pub finished: bool,
}

fn field<'a>(l: &'a str, name: &str) -> Option<&'a str> {
    let k = format!("{}=", name);
    let at = l.find(&k)? + k.len();
    let rest = &l[at..];
    if rest.starts_with('[') {
        let e = rest.find(']')?;
        return Some(&rest[1..e]);
    }
    Some(rest.split(',').next().unwrap().trim())
}

/// The per-run reports of a Restarter's output; None when the output is not understood.
pub fn parse_runs(text: &str) -> Option<Vec<RunInfo>> {
    let mut v: Vec<RunInfo> = vec![];
    for l in text.lines() {
        if !l.starts_with("Run ") {
            continue;
        }
        let no: usize = l[4..].split(' ').next()?.parse().ok()?;
        if l.contains(" parameters: ") {
            v.push(RunInfo {
                no,
                lambda: field(l, "lambda")?.parse().ok()?,
                sigma0: field(l, "sigma0")?.parse().ok()?,
                seed: field(l, "seed")?.parse().ok()?,
                ..Default::default()
            });
        } else if l.contains(" results: ") {
            let r = v.last_mut()?;
            if r.no != no {
                return None;
            }
            r.reasons = field(l, "termination_reasons")?
                .split(", ")
                .map(|x| x.trim_matches('`').to_string())
                .collect();
            r.fevals = field(l, "f-evals")?.parse().ok()?;
            r.finished = true;
        }
    }
    Some(v)
}

fn range_of(r: &RCfg) -> (f64, f64) {
    let (a, b) = (r.lo.0, r.hi.0);
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}

/// Totals and best individual over all runs.
pub fn restart_totals(ai: usize, a: &ActorHist, r: &RCfg, runs: &Option<Vec<RunInfo>>, o: &mut Out) {
    let res = match &a.rres {
        Some(x) => x,
        None => return,
    };
    o.n("restart_results");
    if res.fevals != a.evals.len() {
        o.bad("restart-count", format!("actor {}: the objective was called {} times, RestartResults says {}", ai, a.evals.len(), res.fevals));
    }
    // segments
    let reuse = matches!(r.api, RApi::Reuse | RApi::ReusePar);
    let mut seg: Vec<(usize, usize, Option<usize>)> = vec![];
    if let Some(rs) = runs {
        if rs.len() != res.runs {
            o.bad("restart-runs", format!("actor {}: {} runs were announced, RestartResults says {}", ai, rs.len(), res.runs));
            return;
        }
        let mut at = 0;
        for x in rs {
            if at + x.fevals > a.evals.len() {
                o.bad("restart-count", format!("actor {}: the runs report more evaluations than there were", ai));
                return;
            }
            seg.push((at, at + x.fevals, Some(x.lambda)));
            at += x.fevals;
        }
        if at != a.evals.len() {
            o.bad("restart-count", format!("actor {}: the runs report {} evaluations, the objective was called {} times", ai, at, a.evals.len()));
            return;
        }
    } else if !reuse {
        if a.runs.len() != res.runs {
            o.bad("restart-runs", format!("actor {}: {} objectives were requested for {} runs", ai, a.runs.len(), res.runs));
            return;
        }
        for k in 0..a.runs.len() {
            let e = a.runs.get(k + 1).map(|x| x.e0).unwrap_or(a.evals.len());
            seg.push((a.runs[k].e0, e, None));
        }
    } else {
        seg.push((0, a.evals.len(), None));
    }
    // best over completed generations
    let mut best: Option<f64> = None;
    let mut certain = true;
    let mut pts: Vec<&EvalRec> = vec![];
    for &(b, e, l) in &seg {
        let ev = &a.evals[b..e];
        let dirty = ev.iter().any(|x| x.v.is_nan() || x.panicked || !x.done);
        let usable: Vec<&EvalRec> = match l {
            Some(l) => chunks(ev, l).into_iter().flat_map(|c| c.iter()).collect(),
            None => {
                if dirty {
                    certain = false;
                }
                ev.iter().filter(|x| x.done && !x.v.is_nan()).collect()
            }
        };
        for x in usable {
            if best.is_none() || better(r.maximize, x.v, best.unwrap()) {
                best = Some(x.v);
                pts.clear();
            }
            if best == Some(x.v) && pts.len() < 20000 {
                pts.push(x);
            }
        }
    }
    match (&res.best, best) {
        (None, None) => {}
        (Some((x, v)), Some(w)) => {
            if certain && *v != w {
                o.bad("restart-best", format!("actor {}: RestartResults.best is {:e}, the best value of all completed generations is {:e}", ai, v, w));
            }
            if !certain && better(r.maximize, *v, w) {
                o.bad("restart-best", format!("actor {}: RestartResults.best is {:e}, better than every evaluated value", ai, v));
            }
            if !a.evals.iter().any(|e| e.v == *v && beq(&e.x, x)) {
                o.bad("restart-best", format!("actor {}: RestartResults.best claims {:e} for a point that was never evaluated to it", ai, v));
            }
        }
        (None, Some(w)) => {
            if certain {
                o.bad("restart-best", format!("actor {}: RestartResults.best is None, the best value of all completed generations is {:e}", ai, w));
            }
        }
        (Some((_, v)), None) => o.bad("restart-best", format!("actor {}: RestartResults.best is {:e} without a completed generation", ai, v)),
    }
    if let Some((_, v)) = &res.best {
        if v.is_nan() {
            o.bad("restart-best", format!("actor {}: RestartResults.best is NaN", ai));
        }
    }
}

/// Scheduling of the runs.
pub fn restart_runs(ai: usize, a: &ActorHist, r: &RCfg, runs: &Option<Vec<RunInfo>>, o: &mut Out) {
    let res = match &a.rres {
        Some(x) => x,
        None => return,
    };
    let reuse = matches!(r.api, RApi::Reuse | RApi::ReusePar);
    let max_runs = match &r.strat {
        Strat::Local { max_runs, .. } => Some(*max_runs),
        _ => None,
    };
    // --- stop reasons ---
    let nan = a.evals.iter().any(|e| e.done && e.v.is_nan());
    if nan != (res.reason == "InvalidFunctionValue") {
        o.bad("restart-reason", format!("actor {}: NaN returned: {}, but the reason is {}", ai, nan, res.reason));
    }
    if let Some(m) = max_runs {
        if res.runs > m {
            o.bad("restart-reason", format!("actor {}: {} runs, at most {} allowed", ai, res.runs, m));
        }
        if res.reason == "MaxRuns" && res.runs != m {
            o.bad("restart-reason", format!("actor {}: MaxRuns after {} of {} runs", ai, res.runs, m));
        }
    }
    if let Strat::Ipop { .. } = r.strat {
        if res.runs > 10 || (res.reason == "MaxRuns" && res.runs != 10) {
            o.bad("restart-reason", format!("actor {}: IPOP ended with {} after {} runs (10 expected)", ai, res.reason, res.runs));
        }
    }
    match res.reason.as_str() {
        "MaxFunctionEvals" => {
            if !r.max_evals.map_or(false, |m| a.evals.len() >= m) {
                o.bad("restart-reason", format!("actor {}: MaxFunctionEvals after {} evaluations, limit {:?}", ai, a.evals.len(), r.max_evals));
            }
        }
        "MaxTime" => {
            let l = r.max_time_ns.unwrap_or(u64::MAX);
            if a.t_end.saturating_sub(a.t_create1) < l {
                o.bad("restart-reason", format!("actor {}: MaxTime after at most {} ns, limit {:?}", ai, a.t_end - a.t_create1, r.max_time_ns));
            }
        }
        "FunTarget" => {
            if !r.fun_target.map_or(false, |t| a.evals.iter().any(|e| better(r.maximize, e.v, t.0))) {
                o.bad("restart-reason", format!("actor {}: FunTarget although no evaluation was better than {:?}", ai, r.fun_target));
            }
        }
        "MaxRuns" | "InvalidFunctionValue" => {}
        x => o.bad("restart-reason", format!("actor {}: unknown reason {}", ai, x)),
    }
    // --- the run boundaries ---
    let bounds: Vec<usize> = if let Some(rs) = runs {
        let mut at = 0;
        let mut v = vec![];
        for x in rs {
            v.push(at);
            at += x.fevals;
        }
        v
    } else if !reuse {
        a.runs.iter().map(|x| x.e0).collect()
    } else {
        return;
    };
    if bounds.len() != res.runs {
        o.bad("restart-runs", format!("actor {}: {} runs observed, RestartResults says {}", ai, bounds.len(), res.runs));
        return;
    }
    let end = |k: usize| bounds.get(k + 1).cloned().unwrap_or(a.evals.len()).min(a.evals.len());
    // nothing that ends the sequence may hold before a run that was started
    for k in 0..bounds.len() {
        if bounds[k] > a.evals.len() {
            return;
        }
        o.n("restart_runs_checked");
        if let Some(m) = r.max_evals {
            if bounds[k] >= m {
                o.bad("restart-limit", format!("actor {}: run {} was started after {} evaluations, limit {}", ai, k + 1, bounds[k], m));
            }
        }
        if !reuse {
            if let (Some(l), Some(first)) = (r.max_time_ns, a.runs.first()) {
                if k > 0 && bounds[k] > 0 {
                    let t = a.evals[..bounds[k]].iter().map(|e| e.t1).max().unwrap();
                    if t.saturating_sub(first.t) >= l {
                        o.bad("restart-limit", format!("actor {}: run {} was started after {} ns, limit {} ns", ai, k + 1, t - first.t, l));
                    }
                }
            }
        }
        if k + 1 < bounds.len() {
            let ev = &a.evals[bounds[k]..end(k)];
            if let Some(t) = r.fun_target {
                if ev.iter().any(|e| better(r.maximize, e.v, t.0)) {
                    o.bad("restart-limit", format!("actor {}: run {} reached the target but the sequence went on", ai, k + 1));
                }
            }
            if ev.iter().any(|e| e.v.is_nan()) {
                o.bad("restart-limit", format!("actor {}: the sequence went on after an invalid function value in run {}", ai, k + 1));
            }
        }
    }
    if let Some(t) = r.fun_target {
        let hit = a.evals.iter().any(|e| better(r.maximize, e.v, t.0));
        if hit && !nan && res.reason != "FunTarget" {
            o.bad("restart-reason", format!("actor {}: the target was reached but the reason is {}", ai, res.reason));
        }
    }
    let rs = match runs {
        Some(x) => x,
        None => return,
    };
    // --- parameters of the runs ---
    let (lo, hi) = range_of(r);
    let range = hi - lo;
    let base = r
        .base
        .as_ref()
        .and_then(|b| b.lambda)
        .unwrap_or_else(|| {
            let d = r.base.as_ref().map(|b| b.mean.len()).unwrap_or(r.dim);
            4 + (3.0 * (d as f64).ln()).floor() as usize
        });
    let mut ipop_runs = 0usize;
    let mut ipop_evals = 0usize;
    let mut lr_evals = 0usize;
    let mut mult = 1usize;
    let mut last_mult = 1usize;
    let mut last_ipop = 0usize;
    let mut seeds: Vec<u64> = vec![];
    let mut means: Vec<Vec<f64>> = vec![];
    for (k, x) in rs.iter().enumerate() {
        if x.no != k + 1 || !x.finished {
            o.bad("restart-runs", format!("actor {}: run {} is announced as run {} (finished: {})", ai, k + 1, x.no, x.finished));
            return;
        }
        for q in &x.reasons {
            o.n(match q.as_str() {
                "MaxFunctionEvals" => "run_end_MaxFunctionEvals",
                "MaxGenerations" => "run_end_MaxGenerations",
                "FunTarget" => "run_end_FunTarget",
                "InvalidFunctionValue" => "run_end_InvalidFunctionValue",
                "PosDefCov" => "run_end_PosDefCov",
                "MaxTime" => "run_end_MaxTime",
                "NoEffectAxis" | "NoEffectCoord" => "run_end_no_effect",
                _ => "run_end_tolerance",
            });
        }
        let ev = &a.evals[bounds[k]..end(k)];
        let mut per_run = r.max_evals_per_run;
        let s_ok = |want: f64| (x.sigma0 - want).abs() <= 1e-4 * want;
        let name;
        match &r.strat {
            Strat::Local { factor, .. } => {
                name = "local";
                let want = range * factor.map(|f| f.0).unwrap_or(0.5) * 1e-2;
                if !s_ok(want) {
                    o.bad("restart-sigma", format!("actor {}: run {} has initial step size {:e}, expected {:e}", ai, k + 1, x.sigma0, want));
                }
                if x.lambda != base {
                    o.bad("restart-lambda", format!("actor {}: run {} has lambda {}, expected {}", ai, k + 1, x.lambda, base));
                }
            }
            Strat::Ipop { factor } => {
                name = "ipop";
                if !s_ok(range / 2.0) {
                    o.bad("restart-sigma", format!("actor {}: run {} has initial step size {:e}, expected {:e}", ai, k + 1, x.sigma0, range / 2.0));
                }
                if x.lambda != base * mult {
                    o.bad("restart-lambda", format!("actor {}: run {} has lambda {}, expected {}", ai, k + 1, x.lambda, base * mult));
                }
                mult *= factor.unwrap_or(2);
            }
            Strat::Bipop { lr, factor } => {
                if ipop_runs != 0 && lr_evals < ipop_evals {
                    name = "bipop_local";
                    let f = lr.map(|f| f.0).unwrap_or(0.2);
                    if !(x.sigma0 >= range * f * 1e-2 * (1.0 - 1e-4) && x.sigma0 <= range * f * (1.0 + 1e-4)) {
                        o.bad("restart-sigma", format!("actor {}: local run {} has initial step size {:e}, expected {:e} to {:e}", ai, k + 1, x.sigma0, range * f * 1e-2, range * f));
                    }
                    let top = (base as f64 * (last_mult as f64 / 2.0).max(1.0)).floor() as usize;
                    if x.lambda < base || x.lambda > top {
                        o.bad("restart-lambda", format!("actor {}: local run {} has lambda {}, expected {} to {}", ai, k + 1, x.lambda, base, top));
                    }
                    per_run = per_run.map(|m| m.min(last_ipop / 2));
                    lr_evals += x.fevals;
                } else {
                    name = "bipop_ipop";
                    if !s_ok(range / 5.0) {
                        o.bad("restart-sigma", format!("actor {}: large-population run {} has initial step size {:e}, expected {:e}", ai, k + 1, x.sigma0, range / 5.0));
                    }
                    if x.lambda != base * mult {
                        o.bad("restart-lambda", format!("actor {}: large-population run {} has lambda {}, expected {}", ai, k + 1, x.lambda, base * mult));
                    }
                    ipop_runs += 1;
                    ipop_evals += x.fevals;
                    last_ipop = x.fevals;
                    last_mult = mult;
                    mult *= factor.unwrap_or(2);
                    if ipop_runs == 10 && k + 1 != rs.len() {
                        o.bad("restart-limit", format!("actor {}: a run was started after 10 large-population runs", ai));
                    }
                    if ipop_runs > 10 {
                        return;
                    }
                }
            }
        }
        o.n(match name {
            "local" => "runs_local",
            "ipop" => "runs_ipop",
            "bipop_local" => "runs_bipop_local",
            _ => "runs_bipop_large",
        });
        // per-run limits
        let invalid = x.reasons.iter().any(|z| z == "InvalidFunctionValue");
        let posdef = x.reasons.iter().any(|z| z == "PosDefCov");
        if !invalid && !posdef {
            let gens = x.fevals / x.lambda.max(1);
            if x.fevals % x.lambda.max(1) != 0 {
                o.bad("restart-lambda", format!("actor {}: run {} made {} evaluations with lambda {}", ai, k + 1, x.fevals, x.lambda));
            }
            let has = |n: &str| x.reasons.iter().any(|z| z == n);
            let e_hit = per_run.map_or(false, |m| x.fevals >= m);
            if e_hit != has("MaxFunctionEvals") {
                o.bad("restart-run-limit", format!("actor {}: {} run {} made {} evaluations, limit {:?}, reasons {:?}", ai, name, k + 1, x.fevals, per_run, x.reasons));
            }
            if let Some(m) = per_run {
                if x.fevals >= m.max(1).saturating_add(x.lambda) {
                    o.bad("restart-run-limit", format!("actor {}: {} run {} made {} evaluations, limit {}", ai, name, k + 1, x.fevals, m));
                }
            }
            // the time limit of the base options is one of every single run; the run was created
            // after the evaluations of the one before and before its own first
            let base_l = r.base.as_ref().and_then(|b| b.max_time_ns);
            let before = a.evals[..bounds[k]].iter().map(|e| e.t1).max().unwrap_or(0).max(a.t_create1);
            let after = a.evals.get(end(k)).map_or(a.t_end, |e| e.t0);
            if has("MaxTime") && after.saturating_sub(before) < base_l.unwrap_or(u64::MAX) {
                o.bad("restart-run-limit", format!("actor {}: run {} ended with MaxTime after at most {} ns, limit of the base options {:?}", ai, k + 1, after.saturating_sub(before), base_l));
            }
            if let (Some(l), Some(first)) = (base_l, ev.first()) {
                o.n("run_time_limits_checked");
                let t0 = ev[..x.lambda.clamp(1, ev.len())].iter().map(|e| e.t0).min().unwrap_or(first.t0);
                let mut t1 = 0;
                for (j, c) in ev.chunks(x.lambda.max(1)).enumerate() {
                    t1 = c.iter().map(|e| e.t1).fold(t1, u64::max);
                    if t1.saturating_sub(t0) >= l && (j + 1 < gens || !has("MaxTime")) {
                        o.bad("restart-run-limit", format!("actor {}: run {} had lasted {} ns after generation {} of {}, limit of the base options {} ns, reasons {:?}", ai, k + 1, t1 - t0, j + 1, gens, l, x.reasons));
                        break;
                    }
                }
            }
            let g_hit = r.max_gens_per_run.map_or(false, |m| gens >= m);
            if g_hit != has("MaxGenerations") {
                o.bad("restart-run-limit", format!("actor {}: run {} made {} generations, limit {:?}, reasons {:?}", ai, k + 1, gens, r.max_gens_per_run, x.reasons));
            }
            if let Some(m) = r.max_gens_per_run {
                if gens > m.max(1) {
                    o.bad("restart-run-limit", format!("actor {}: run {} made {} generations, limit {}", ai, k + 1, gens, m));
                }
            }
            let t_hit = r.fun_target.map_or(false, |t| ev.len() >= x.lambda && ev[ev.len() - x.lambda..].iter().any(|e| better(r.maximize, e.v, t.0)));
            if t_hit != has("FunTarget") {
                o.bad("restart-run-limit", format!("actor {}: run {} target {:?}, reached: {}, reasons {:?}", ai, k + 1, r.fun_target, t_hit, x.reasons));
            }
        }
        // the stop reason of the whole
        if k + 1 == rs.len() {
            if posdef {
                o.n("restart_posdef_runs");
            }
            let ten = matches!(r.strat, Strat::Bipop { .. }) && ipop_runs >= 10;
            if let Strat::Bipop { .. } = r.strat {
                if res.reason == "MaxRuns" && !ten {
                    o.bad("restart-reason", format!("actor {}: BIPOP ended with MaxRuns after {} large-population runs", ai, ipop_runs));
                }
            }
        }
        // fresh randomness
        if seeds.contains(&x.seed) {
            o.bad("restart-seed", format!("actor {}: run {} uses the seed of an earlier run", ai, k + 1));
        }
        // (64 random bits are never this close)
        let near = |q: u64| x.seed.wrapping_sub(q) as i64;
        if let Some(q) = seeds.iter().chain(a.rseed.iter()).find(|q| near(**q).unsigned_abs() < 1 << 16 && **q != x.seed) {
            o.bad("restart-seed", format!("actor {}: run {} uses the seed {}, next to {}, an earlier one: it will be shared with other restarters", ai, k + 1, x.seed, q));
        }
        seeds.push(x.seed);
        if let Some(y) = a.shadow.get(k).filter(|_| ev.len() >= x.lambda) {
            match initial_mean(ev, y, x.lambda, r.dim) {
                Some((s, m, spread)) => {
                    o.n("initial_means_recovered");
                    if (s - x.sigma0).abs() > 1e-3 * x.sigma0 + 1e-9 * (1.0 + spread) {
                        o.bad("restart-sigma", format!("actor {}: run {} announced step size {:e} but sampled with {:e}", ai, k + 1, x.sigma0, s));
                    }
                    let tol = 1e-6 * range + 1e-6 * s;
                    if m.iter().any(|v| *v < lo - tol || *v > hi + tol) {
                        o.bad("restart-mean", format!("actor {}: run {} starts at {:?}, outside the search range [{}, {}]", ai, k + 1, m, lo, hi));
                    }
                    for q in &means {
                        if q.iter().zip(&m).all(|(a, b)| (a - b).abs() <= 1e-9 * range) {
                            o.bad("restart-mean", format!("actor {}: run {} starts at the initial mean of an earlier run", ai, k + 1));
                        }
                    }
                    if r.dim >= 2 && m.windows(2).all(|w| (w[0] - w[1]).abs() <= 1e-9 * range) {
                        o.bad("restart-mean", format!("actor {}: run {}: all coordinates of the initial mean are equal", ai, k + 1));
                    }
                    means.push(m);
                }
                None => {
                    o.bad("restart-replay", format!("actor {}: the first generation of run {} is not the one its announced seed and step size produce", ai, k + 1));
                }
            }
        }
    }
    // each run is an ordinary run of the library with the base options
    for (k, (x, y)) in rs.iter().zip(&a.replays).enumerate() {
        if y.gens == 0 {
            continue;
        }
        o.n("runs_replayed_as_ordinary_runs");
        o.add("replayed_generations", y.gens as u64);
        // limits are judged above; the others hang on the last bits of the state
        let skip = ["MaxFunctionEvals", "MaxGenerations", "MaxTime", "FunTarget", "InvalidFunctionValue", "NoEffectAxis", "NoEffectCoord", "PosDefCov"];
        let judged = |q: &[String]| {
            let mut v: Vec<String> = q.iter().filter(|z| !z.is_empty() && !skip.contains(&z.as_str())).cloned().collect();
            v.sort();
            v
        };
        if let Some(g) = y.jump {
            o.bad("restart-run", format!("actor {}: run {} is not the ordinary run with its base options, seed and population size from generation {} on", ai, k + 1, g + 1));
        }
        if let Some((g, q)) = &y.early {
            if !judged(q).is_empty() {
                o.bad("restart-run", format!("actor {}: run {} went on after generation {}, where the base options end it ({:?})", ai, k + 1, g + 1, q));
            }
        }
        if let Some(q) = &y.end {
            o.n("run_ends_replayed");
            let posdef = |v: &[String]| v.iter().any(|z| z == "PosDefCov");
            if judged(q) != judged(&x.reasons) && !posdef(q) && !posdef(&x.reasons) {
                o.bad("restart-run", format!("actor {}: run {} ended with {:?}, the base options end it with {:?}", ai, k + 1, x.reasons, q));
            }
        }
    }
    // independent coordinates: none repeats or mirrors another one, in the same run or the one before
    let same = |a: f64, b: f64| (a - b).abs() <= 1e-9 * range;
    let related = |a: f64, b: f64| same(a, b) || same(a, lo + hi - b);
    for i in 0..r.dim {
        for j in 0..r.dim {
            let within = means.iter().filter(|m| i < j && related(m[i], m[j])).count();
            let across = means.windows(2).filter(|w| related(w[0][i], w[1][j])).count();
            if within >= 2 || across >= 2 {
                o.bad("restart-mean", format!("actor {}: coordinate {} of the initial means repeats or mirrors coordinate {}", ai, j, i));
            }
        }
    }
    if range > 0.0 {
        // correlations, with Bernstein's bound on a sum of n products of variance 1, at most 3
        let u = |v: f64| 3.464 * ((v - lo) / range - 0.5);
        let (mut sums, mut n) = ([0.0f64; 2], [0.0f64; 2]);
        for (k, m) in means.iter().enumerate() {
            for i in 1..r.dim {
                sums[0] += u(m[i]) * u(m[i - 1]);
                n[0] += 1.0;
            }
            if k > 0 {
                for i in 0..r.dim {
                    sums[1] += u(m[i]) * u(means[k - 1][i]);
                    n[1] += 1.0;
                }
            }
        }
        for k in 0..2 {
            if n[k] > 0.0 && sums[k] * sums[k] / (2.0 * (n[k] + sums[k].abs())) > 30.0 {
                o.bad("restart-mean", format!("actor {}: the initial means are correlated ({} over {} pairs, {})", ai, sums[k], n[k], ["neighbouring coordinates", "consecutive runs"][k]));
            }
            o.add("initial_mean_pairs", n[k] as u64);
        }
    }
    // spread of the initial means over the range
    let cs: Vec<f64> = means.iter().flatten().map(|v| (v - lo) / range).collect();
    if cs.len() >= 12 {
        let mn = cs.iter().cloned().fold(1.0, f64::min);
        let mx = cs.iter().cloned().fold(0.0, f64::max);
        // P(range of n uniforms < w) <= n w^(n-1)
        let n = cs.len() as f64;
        let w = mx - mn;
        if n.ln() + (n - 1.0) * w.max(1e-12).ln() < -25.0 {
            o.bad("restart-mean", format!("actor {}: {} initial coordinates span only {:.3} of the search range", ai, cs.len(), w));
        }
        let lowhalf = cs.iter().filter(|v| **v < 0.5).count() as f64;
        if (lowhalf - n / 2.0).abs() > 6.0 * (n / 4.0).sqrt() + 2.0 {
            o.bad("restart-mean", format!("actor {}: {} of {} initial coordinates lie in the lower half of the range", ai, lowhalf, n));
        }
        o.n("initial_mean_spread_tests");
    }
}

/// x = m + s*y for the first generation; recovers (s, m, spread) or None when it does not fit.
pub fn initial_mean(ev: &[EvalRec], y: &[Vec<f64>], lambda: usize, n: usize) -> Option<(f64, Vec<f64>, f64)> {
    if y.len() < lambda || lambda < 2 {
        return None;
    }
    let mut xs: Vec<&Vec<f64>> = ev[..lambda].iter().map(|e| &e.x).collect();
    let mut ys: Vec<&Vec<f64>> = y[..lambda].iter().collect();
    let key = |a: &&Vec<f64>, b: &&Vec<f64>| a[0].partial_cmp(&b[0]).unwrap();
    xs.sort_by(key);
    ys.sort_by(key);
    let s = (xs[lambda - 1][0] - xs[0][0]) / (ys[lambda - 1][0] - ys[0][0]);
    let m: Vec<f64> = (0..n).map(|i| xs[0][i] - s * ys[0][i]).collect();
    let spread = xs.iter().flat_map(|x| x.iter()).fold(0.0f64, |a, v| a.max(v.abs()));
    for k in 0..lambda {
        for i in 0..n {
            let w = m[i] + s * ys[k][i];
            if (xs[k][i] - w).abs() > 1e-9 * (s.abs() + spread) {
                return None;
            }
        }
    }
    Some((s, m, spread))
}

/// Time limit of a restarted optimisation.
pub fn restart_time(ai: usize, a: &ActorHist, r: &RCfg, runs: &Option<Vec<RunInfo>>, o: &mut Out) {
    let (res, l) = match (&a.rres, r.max_time_ns) {
        (Some(x), Some(l)) => (x, l),
        _ => return,
    };
    o.n("restart_time_checks");
    if res.reason == "MaxTime" && a.t_end.saturating_sub(a.t_create1) < l {
        o.bad("restart-time", format!("actor {}: MaxTime after at most {} ns, limit {} ns", ai, a.t_end - a.t_create1, l));
    }
    if l == 0 && !a.evals.is_empty() {
        o.bad("restart-time", format!("actor {}: {} evaluations with a time limit of zero", ai, a.evals.len()));
    }
    // the first evaluation of every run, and a time by which the optimisation had been started
    let (starts, t0): (Vec<usize>, u64) = if !matches!(r.api, RApi::Reuse | RApi::ReusePar) {
        match a.runs.first() {
            Some(x) => (a.runs.iter().map(|x| x.e0).collect(), x.t),
            None => return,
        }
    } else {
        match (runs, a.evals.first()) {
            (Some(rs), Some(e)) => {
                let mut at = 0;
                (rs.iter().map(|x| { at += x.fevals; at - x.fevals }).collect(), e.t0)
            }
            _ => return,
        }
    };
    for (k, e) in starts.iter().enumerate().skip(1) {
        if *e > 0 && *e <= a.evals.len() {
            let t = a.evals[..*e].iter().map(|e| e.t1).max().unwrap();
            o.n("restart_run_start_checks");
            if t.saturating_sub(t0) >= l {
                o.bad("restart-time", format!("actor {}: run {} was started {} ns after the first, limit {} ns", ai, k + 1, t - t0, l));
            }
        }
    }
}

/// A restarted optimisation ends as soon as its limits allow.
pub fn restart_progress(ai: usize, a: &ActorHist, r: &RCfg, o: &mut Out) {
    if a.panic.is_some() {
        return;
    }
    match &a.rres {
        None => o.bad("no-result", format!("actor {}: the restarted optimisation returned nothing", ai)),
        Some(res) => {
            o.n("restart_results");
            if res.runs == 0 && r.max_evals != Some(0) && r.max_time_ns != Some(0) && !matches!(r.strat, Strat::Local { max_runs: 0, .. }) {
                o.bad("no-run", format!("actor {}: no run was made", ai));
            }
        }
    }
}

/// fmin and friends return the best point they evaluated.
pub fn func(ai: usize, a: &ActorHist, max: bool, o: &mut Out) {
    let (x, v) = a.func_res.as_ref().unwrap();
    o.n("function_results");
    if a.evals.iter().any(|e| !e.done || e.v.is_nan()) {
        return;
    }
    let mut b = f64::NAN;
    for e in &a.evals {
        if b.is_nan() || better(max, e.v, b) {
            b = e.v;
        }
    }
    if *v != b || !a.evals.iter().any(|e| e.v == *v && beq(&e.x, x)) {
        o.bad("function-result", format!("actor {}: returned {:e}, the best evaluated value is {:e}", ai, v, b));
    }
}
