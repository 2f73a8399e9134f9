pub mod gate {
    /// A gate is only a name (and its parameters) here.
    #[derive(Clone, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
    pub struct GateRef(pub String);
    pub trait Gate {
        fn id(&self) -> String;
    }
    impl GateRef {
        pub fn new<G: Gate>(g: G) -> Self { Self(g.id()) }
    }
}
macro_rules! plain_gate {
    ($m:ident, $n:ident) => {
        pub mod $m {
            #[derive(Clone, Copy, Debug, Default)]
            pub struct $n;
            impl super::gate::Gate for $n {
                fn id(&self) -> String { stringify!($n).into() }
            }
        }
    };
}
plain_gate!(noop, NoopGate);
pub mod constant {
    #[derive(Clone, Copy, Debug)]
    pub struct ConstantGate {
        pub num_consts: usize,
    }
    impl ConstantGate {
        pub fn new(num_consts: usize) -> Self { Self { num_consts } }
    }
    impl super::gate::Gate for ConstantGate {
        fn id(&self) -> String { format!("{self:?}") }
    }
}
