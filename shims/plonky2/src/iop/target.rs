use serde::{Deserialize, Serialize};

#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Target {
    Wire(usize),
    VirtualTarget { index: usize },
}
impl Default for Target {
    fn default() -> Self { Self::VirtualTarget { index: 0 } }
}

#[derive(Copy, Clone, Default, Eq, PartialEq, Hash, Debug, Serialize, Deserialize)]
pub struct BoolTarget {
    pub target: Target,
    _private: (),
}
impl BoolTarget {
    pub fn new_unsafe(target: Target) -> BoolTarget {
        BoolTarget {
            target,
            _private: (),
        }
    }
}
