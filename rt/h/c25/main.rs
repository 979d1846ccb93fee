//! deps: bd-server-stats prometheus
//! Public API only: label admission through labeled metrics, metric identity, live-object gauges.
use bd_server_stats::stats::{AutoGauge, Collector, StackAutoGauge};
use hx::{ck, eq, Hx, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const NAMES: [&str; 3] = ["route", "host", "code"];
fn labels_of(m: &prometheus::proto::Metric) -> BTreeMap<String, String> { m.get_label().iter().map(|l| (l.get_name().to_string(), l.get_value().to_string())).collect() }
fn value(f: &prometheus::proto::MetricFamily, m: &prometheus::proto::Metric) -> u64 {
  match f.get_field_type() {
    prometheus::proto::MetricType::COUNTER => m.get_counter().get_value() as u64,
    prometheus::proto::MetricType::GAUGE => m.get_gauge().get_value() as u64,
    _ => m.get_histogram().get_sample_count(),
  }
}
fn family(c: &Collector, n: &str) -> Vec<prometheus::proto::Metric> { c.gather().into_iter().filter(|f| f.get_name() == n).flat_map(|f| f.get_metric().to_vec()).collect() }

fn main() {
  let mut h = Hx::new("random label requests (1..3 labels from a small alphabet) against collectors with limits 0..12 through counters, gauges and histograms; metric identity over scopes and labels; live-object gauges; distinct request sequences counted");
  for i in 0 .. h.n(1500, 20_000) {
    let seed = h.seed * 86_028_121 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let limit = r.us(13);
      let c = Collector::new_with_label_limit(limit as u64);
      log.borrow_mut().push_str(&format!("limit {limit} "));
      let sc = c.scope("s");
      // Builders of different arity share one tracker.
      let b: Vec<_> = (1 ..= 3).map(|n| sc.labeled_metric_builder(&NAMES[.. n])).collect();
      let counters: Vec<_> = (0 .. 3).map(|n| b[n].build_counter(&format!("c{n}"))).collect();
      let gauges: Vec<_> = (0 .. 3).map(|n| b[n].build_gauge(&format!("g{n}"))).collect();
      let hists: Vec<_> = (0 .. 3).map(|n| b[n].build_histogram(&format!("h{n}"))).collect();
      let mut admitted: BTreeSet<(String, String)> = BTreeSet::new();
      let mut over = 0u64;
      let mut want: BTreeMap<(String, Vec<String>), u64> = BTreeMap::new();
      for _ in 0 .. 2 + r.us(30) {
        let n = r.us(3);
        let vals: Vec<String> = (0 ..= n).map(|_| format!("v{}", r.us(7))).collect();
        log.borrow_mut().push_str(&format!("{vals:?}"));
        let mut ok = true;
        for j in 0 ..= n {
          let k = (NAMES[j].to_string(), vals[j].clone());
          if !admitted.contains(&k) {
            if admitted.len() < limit { admitted.insert(k); } else { ok = false; over += 1; break; }
          }
        }
        let eff: Vec<String> = if ok { vals.clone() } else { vec!["label_overflow".to_string(); n + 1] };
        let p: Vec<&str> = vals.iter().map(|x| x.as_str()).collect();
        let kind = r.us(3);
        match kind {
          0 => { let mut m = counters[n].new_metric::<prometheus::IntCounter>(); m.get(&p).inc(); m.get(&vec!["zz"; n + 1]).inc(); },
          1 => { let mut m = gauges[n].new_metric::<prometheus::IntGauge>(); m.get(&p).inc(); m.get(&p).inc(); },
          _ => { let mut m = hists[n].new_metric::<prometheus::Histogram>(); m.get(&p).observe(1.0); m.get(&p).observe(0.5); },
        }
        *want.entry((format!("s:{}{n}", ["c", "g", "h"][kind]), eff)).or_default() += 2;
        let o: u64 = family(&c, "stats:label_tracker:label_overflow").iter().map(|m| m.get_counter().get_value() as u64).sum();
        eq!(o, over, "overflow count");
      }
      let mut got = BTreeMap::new();
      let mut distinct = BTreeSet::new();
      for f in c.gather() {
        if !f.get_name().starts_with("s:") { continue; }
        for m in f.get_metric() {
          let l = labels_of(m);
          let v: Vec<String> = NAMES.iter().filter_map(|n| l.get(*n).cloned()).collect();
          for (k, x) in &l { if x != "label_overflow" { distinct.insert((k.clone(), x.clone())); } }
          let val = value(&f, m);
          got.insert((f.get_name().to_string(), v), val);
        }
      }
      ck!(distinct.len() <= limit, "{} distinct label values with limit {limit}: {distinct:?}", distinct.len());
      eq!(got, want, "labelled values");
      Ok(())
    });
  }
  // Threads: the limit is approximate under races, but admitted values keep working and nothing panics.
  for i in 0 .. h.n(4000, 50_000) {
    let seed = h.seed * 7 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("identity seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let c = Collector::default();
      let mut want: BTreeMap<(String, String, BTreeMap<String, String>), u64> = BTreeMap::new();
      let mut shape: HashMap<String, (String, BTreeSet<String>)> = HashMap::new();
      for _ in 0 .. 2 + r.us(14) {
        let l0: HashMap<String, String> = (0 .. r.us(3)).map(|_| (format!("l{}", r.us(2)), format!("v{}", r.us(3)))).collect();
        let l1: HashMap<String, String> = (0 .. r.us(3)).map(|_| (format!("l{}", r.us(3)), format!("v{}", r.us(3)))).collect();
        let (a, b2) = ((*r.pick(&["", "x", "y"])).to_string(), (*r.pick(&["", "z"])).to_string());
        let name = *r.pick(&["m", "n"]);
        let kind = r.us(3);
        let sc = c.scope(&a).scope_with_labels(&b2, l0.clone());
        let sc = if r.chance(1, 3) { sc.scope("") } else { sc };
        let mut labels: BTreeMap<String, String> = l0.into_iter().collect();
        if kind == 0 { labels.extend(l1.clone()); }
        let full = [a.as_str(), b2.as_str(), name].iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(":") + ["_c", "_g", "_h"][kind];
        // One family keeps one set of label names (prometheus requires it).
        let names: BTreeSet<String> = labels.keys().cloned().collect();
        let e = shape.entry(full.clone()).or_insert_with(|| (full.clone(), names.clone()));
        if e.1 != names { continue; }
        let nm = format!("{name}{}", ["_c", "_g", "_h"][kind]);
        log.borrow_mut().push_str(&format!("[{full} {labels:?}]"));
        let n = 1 + r.below(5);
        match kind {
          0 => sc.counter_with_labels(&nm, l1).inc_by(n),
          1 => sc.gauge(&nm).add(n as i64),
          _ => { let hh = if r.chance(1, 2) { sc.histogram(&nm) } else { sc.histogram_with_buckets(&nm, &[1.0, 2.0]) }; for _ in 0 .. n { hh.observe(1.0) } },
        }
        if kind == 0 && r.chance(1, 3) && labels.is_empty() { c.scope(&full).scope("q").counter("r").inc_by(0); }
        *want.entry((full, String::new(), labels)).or_default() += n;
      }
      let mut got = BTreeMap::new();
      for f in c.gather() {
        if f.get_name().starts_with("stats:") || f.get_name().ends_with(":q:r") { continue; }
        for m in f.get_metric() {
          let val = value(&f, m);
          ck!(got.insert((f.get_name().to_string(), String::new(), labels_of(m)), val).is_none(), "one metric reported twice");
        }
      }
      eq!(got, want, "values per name and labels");
      Ok(())
    });
  }
  for i in 0 .. h.n(1000, 10_000) {
    let seed = h.seed * 3 + i;
    h.case(true, || format!("gauges seed {seed}"), || {
      let mut r = Rng::new(seed);
      let c = Collector::default();
      let g = c.scope("g").gauge("live");
      let mut live: Vec<AutoGauge> = vec![];
      for _ in 0 .. r.us(20) {
        match r.us(4) {
          0 | 1 => live.push(AutoGauge::new(c.scope("g").gauge("live"))),
          2 => { if !live.is_empty() { let k = r.us(live.len()); drop(live.swap_remove(k)); } },
          _ => {
            let s = StackAutoGauge::new(&g);
            eq!(g.get(), live.len() as i64 + 1, "gauge inside a scope");
            if r.chance(1, 2) { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _s2 = StackAutoGauge::new(&g); panic!("x") })); eq!(g.get(), live.len() as i64 + 1, "gauge after an unwound scope"); }
            drop(s);
          },
        }
        eq!(g.get(), live.len() as i64, "gauge");
      }
      let hs: Vec<_> = (0 .. 3).map(|_| { let g = g.clone(); std::thread::spawn(move || { for _ in 0 .. 50 { let _a = AutoGauge::new(g.clone()); let _b = StackAutoGauge::new(&g); } }) }).collect();
      for x in hs { x.join().map_err(|_| "panic in a thread")?; }
      eq!(g.get(), live.len() as i64, "gauge after threads");
      Ok(())
    });
  }
  h.finish()
}
