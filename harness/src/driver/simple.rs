//! Search over generated programs whose verdict is a compile result and, for
//! some, a run.

pub trait Engine: Sync {
    type V: Clone + Send + Sync;
    /// Verdicts of many cases at once: `None` is "holds".
    fn many(&self, v: &[(usize, Self::V)]) -> Vec<Option<String>>;
    /// Verdict of one case alone.
    fn one(&self, v: &Self::V) -> Option<String>;
}
