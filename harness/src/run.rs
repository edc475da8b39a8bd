//! Entry point of generated programs: runs one property over the program's
//! registry and prints one JSON result line.

use crate::ops::Reg;
use crate::props;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use proptest::strategy::Strategy;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

/// What is counted on every run.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    pub fn class(&mut self, c: impl Into<String>) {
        *self.classes.entry(c.into()).or_default() += 1;
    }
    /// Counts a distinct non-trivial case and maybe keeps it as a sample.
    pub fn nontrivial(&mut self, key: &impl Hash, sample: impl FnOnce() -> Value) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        let n = self.nontrivial.len();
        if self.nontrivial.insert(h.finish()) && self.samples.len() < 6 && (n < 2 || n % 97 == 5) {
            self.samples.push(sample());
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Failure {
    pub message: String,
    /// Minimal failing input of the property's check.
    pub input: Value,
    /// Case ids whose types occur in the input.
    pub cases: Vec<usize>,
}

pub struct Run<'a> {
    pub reg: &'a Reg,
    pub seed: u64,
    pub cases: u32,
    /// Signatures of recorded findings of this property.
    pub known: HashSet<String>,
    pub stats: RefCell<Stats>,
    pub failures: Vec<Failure>,
    /// Replay: run the check on exactly this input.
    pub input: Option<Value>,
    salt: u64,
}

pub fn rng(seed: u64, salt: u64) -> TestRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&salt.to_le_bytes());
    s[16..24].copy_from_slice(&0x6372_6576_6963_6521u64.to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

pub fn config(cases: u32) -> Config {
    Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 20_000,
        max_shrink_time: 0,
        max_global_rejects: 1_000_000,
        ..Config::default()
    }
}

impl<'a> Run<'a> {
    /// Runs `check` on generated inputs; records the shrunk failure, if any.
    /// `tag` must be stable: it selects the random stream and the replay target.
    pub fn forall<I, S>(
        &mut self,
        tag: &str,
        cases: u32,
        strategy: S,
        check: impl Fn(&Reg, &I, &mut Stats) -> Result<(), String>,
        used: impl Fn(&I) -> Vec<usize>,
    ) where
        I: Serialize + DeserializeOwned + std::fmt::Debug + Clone,
        S: Strategy<Value = I>,
    {
        let reg = self.reg;
        if let Some(v) = &self.input {
            if v["tag"] != tag {
                return;
            }
            let i: I = serde_json::from_value(v["value"].clone()).expect("replay input");
            let st = &self.stats;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                st.borrow_mut().evaluations += 1;
                check(reg, &i, &mut st.borrow_mut())
            }));
            let m = match r {
                Ok(Ok(())) => return,
                Ok(Err(m)) => m,
                Err(p) => panic_text(p),
            };
            self.failures.push(Failure { message: m, input: v.clone(), cases: used(&i) });
            return;
        }
        // A failing program has said enough after a dozen failures; only the first
        // few are worth shrinking at length.
        if self.failures.len() >= 12 {
            return;
        }
        self.salt = {
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            h.write(tag.as_bytes());
            h.finish()
        };
        let mut config = config(cases);
        config.max_shrink_time = if self.failures.len() < 3 { 6_000 } else { 500 };
        let mut runner = TestRunner::new_with_rng(config, rng(self.seed, self.salt));
        let st = &self.stats;
        let failed = RefCell::new(false);
        let res = runner.run(&strategy, |i| {
            // While shrinking, do not count.
            let mut scratch = Stats::default();
            let r = if *failed.borrow() {
                check(reg, &i, &mut scratch)
            } else {
                let mut s = st.borrow_mut();
                s.evaluations += 1;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(reg, &i, &mut s)));
                drop(s);
                match r {
                    Ok(r) => r,
                    Err(p) => Err(panic_text(p)),
                }
            };
            if r.is_err() {
                *failed.borrow_mut() = true;
            }
            r.map_err(TestCaseError::fail)
        });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, i)) => {
                let message = reason.message().to_string();
                if message.contains("harness:") {
                    eprintln!("{message}");
                    std::process::exit(2);
                }
                self.failures.push(Failure {
                    message,
                    cases: used(&i),
                    input: json!({"tag": tag, "value": serde_json::to_value(&i).unwrap()}),
                })
            }
            Err(TestError::Abort(r)) => {
                eprintln!("harness: aborted: {}", r.message());
                std::process::exit(2);
            }
        }
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let m = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into());
    format!("panic: {m}")
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

pub fn run_main(reg: Reg) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let cases: u32 = get("--cases").map_or(64, |s| s.parse().unwrap());
    let known: HashSet<String> = get("--known").map_or(HashSet::new(), |s| {
        s.split('\n').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    });
    let input = get("--input").map(|p| serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap());
    let mut run = Run {
        reg: &reg,
        seed,
        cases,
        known,
        stats: RefCell::default(),
        failures: vec![],
        input,
        salt: 0,
    };
    props::run(&prop, &mut run);
    let st = run.stats.borrow();
    println!(
        "RESULT {}",
        json!({
            "evaluations": st.evaluations,
            "nontrivial": st.nontrivial.iter().collect::<Vec<_>>(),
            "classes": st.classes,
            "samples": st.samples,
            "known": st.known,
            "failures": run.failures,
            "types": reg.ops.len(),
        })
    );
}
