use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub props: Vec<String>,
    pub host: Option<usize>,
    pub t_us: u64,
    pub what: String,
}
impl Violation {
    pub fn new(props: Vec<String>, host: Option<usize>, t: u64, what: String) -> Self {
        Violation { props, host, t_us: t / 1000, what }
    }
    pub fn of(props: &[&str], host: Option<usize>, t: u64, what: String) -> Self {
        Self::new(props.iter().map(|s| s.to_string()).collect(), host, t, what)
    }
}
