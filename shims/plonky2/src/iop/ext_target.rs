use crate::field::extension::{Extendable, FieldExtension};
use crate::hash::hash_types::RichField;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct ExtensionTarget<const D: usize>(pub [Target; D]);
impl<const D: usize> Default for ExtensionTarget<D> {
    fn default() -> Self { Self([Target::default(); D]) }
}
impl<const D: usize> ExtensionTarget<D> {
    pub const fn to_target_array(&self) -> [Target; D] { self.0 }
}
impl<const D: usize> TryFrom<Vec<Target>> for ExtensionTarget<D> {
    type Error = Vec<Target>;

    fn try_from(value: Vec<Target>) -> Result<Self, Self::Error> { Ok(Self(value.try_into()?)) }
}
impl Target {
    pub fn to_ext_target<const D: usize>(self, zero: Self) -> ExtensionTarget<D> {
        let mut arr = [zero; D];
        arr[0] = self;
        ExtensionTarget(arr)
    }
}

impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    fn ext_op(
        &mut self,
        name: &'static str,
        ins: &[ExtensionTarget<D>],
        f: impl Fn(&[F::Extension]) -> F::Extension + Send + Sync + 'static,
    ) -> ExtensionTarget<D> {
        let flat: Vec<Target> = ins.iter().flat_map(|e| e.0).collect();
        let out = self.op(name, vec![], flat, D, 1, move |v, out| {
            let e: Vec<F::Extension> = v
                .chunks(D)
                .map(|c| F::Extension::from_basefield_array(c.to_vec().try_into().unwrap()))
                .collect();
            out.extend(f(&e).to_basefield_array());
        });
        ExtensionTarget(out.try_into().unwrap())
    }

    pub fn constant_extension(&mut self, c: F::Extension) -> ExtensionTarget<D> {
        ExtensionTarget(c.to_basefield_array().map(|x| self.constant(x)))
    }

    pub fn zero_extension(&mut self) -> ExtensionTarget<D> {
        use crate::field::types::Field;
        self.constant_extension(F::Extension::ZERO)
    }

    pub fn one_extension(&mut self) -> ExtensionTarget<D> {
        use crate::field::types::Field;
        self.constant_extension(F::Extension::ONE)
    }

    pub fn two_extension(&mut self) -> ExtensionTarget<D> {
        use crate::field::types::Field;
        self.constant_extension(F::Extension::TWO)
    }

    pub fn neg_one_extension(&mut self) -> ExtensionTarget<D> {
        use crate::field::types::Field;
        self.constant_extension(F::Extension::NEG_ONE)
    }

    pub fn convert_to_ext(&mut self, t: Target) -> ExtensionTarget<D> {
        let zero = self.zero();
        t.to_ext_target(zero)
    }

    pub fn add_virtual_extension_target(&mut self) -> ExtensionTarget<D> {
        ExtensionTarget(self.add_virtual_target_arr())
    }

    pub fn add_virtual_extension_targets(&mut self, n: usize) -> Vec<ExtensionTarget<D>> {
        (0..n).map(|_| self.add_virtual_extension_target()).collect()
    }

    pub fn connect_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) {
        for (x, y) in a.0.into_iter().zip(b.0) {
            self.connect(x, y);
        }
    }

    pub fn assert_zero_extension(&mut self, a: ExtensionTarget<D>) {
        let z = self.zero_extension();
        self.connect_extension(a, z);
    }

    pub fn add_extension(
        &mut self,
        a: ExtensionTarget<D>,
        b: ExtensionTarget<D>,
    ) -> ExtensionTarget<D> {
        self.ext_op("add_ext", &[a, b], |v| v[0] + v[1])
    }

    pub fn sub_extension(
        &mut self,
        a: ExtensionTarget<D>,
        b: ExtensionTarget<D>,
    ) -> ExtensionTarget<D> {
        self.ext_op("sub_ext", &[a, b], |v| v[0] - v[1])
    }

    pub fn mul_extension(
        &mut self,
        a: ExtensionTarget<D>,
        b: ExtensionTarget<D>,
    ) -> ExtensionTarget<D> {
        self.ext_op("mul_ext", &[a, b], |v| v[0] * v[1])
    }

    pub fn mul_add_extension(
        &mut self,
        a: ExtensionTarget<D>,
        b: ExtensionTarget<D>,
        c: ExtensionTarget<D>,
    ) -> ExtensionTarget<D> {
        self.ext_op("mul_add_ext", &[a, b, c], |v| v[0] * v[1] + v[2])
    }

    pub fn mul_sub_extension(
        &mut self,
        a: ExtensionTarget<D>,
        b: ExtensionTarget<D>,
        c: ExtensionTarget<D>,
    ) -> ExtensionTarget<D> {
        self.ext_op("mul_sub_ext", &[a, b, c], |v| v[0] * v[1] - v[2])
    }

    pub fn square_extension(&mut self, x: ExtensionTarget<D>) -> ExtensionTarget<D> {
        self.mul_extension(x, x)
    }

    pub fn add_many_extension(&mut self, terms: &[ExtensionTarget<D>]) -> ExtensionTarget<D> {
        let mut sum = self.zero_extension();
        for &t in terms {
            sum = self.add_extension(sum, t);
        }
        sum
    }

    pub fn mul_many_extension(&mut self, terms: &[ExtensionTarget<D>]) -> ExtensionTarget<D> {
        let mut p = self.one_extension();
        for &t in terms {
            p = self.mul_extension(p, t);
        }
        p
    }

    pub fn div_extension(
        &mut self,
        a: ExtensionTarget<D>,
        b: ExtensionTarget<D>,
    ) -> ExtensionTarget<D> {
        self.ext_op("div_ext", &[a, b], |v| v[0] / v[1])
    }

    pub fn inverse_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let one = self.one_extension();
        self.div_extension(one, a)
    }

    pub fn scalar_mul_ext(&mut self, a: Target, b: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let a = self.convert_to_ext(a);
        self.mul_extension(a, b)
    }

    pub fn mul_const_extension(&mut self, c: F, a: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let c = self.constant_extension(c.into());
        self.mul_extension(c, a)
    }

    pub fn add_const_extension(&mut self, a: ExtensionTarget<D>, c: F) -> ExtensionTarget<D> {
        let c = self.constant_extension(c.into());
        self.add_extension(a, c)
    }

    pub fn exp_power_of_2_extension(
        &mut self,
        mut base: ExtensionTarget<D>,
        power_log: usize,
    ) -> ExtensionTarget<D> {
        for _ in 0..power_log {
            base = self.square_extension(base);
        }
        base
    }

    pub fn inner_product_extension(
        &mut self,
        constant: F,
        starting_acc: ExtensionTarget<D>,
        pairs: Vec<(ExtensionTarget<D>, ExtensionTarget<D>)>,
    ) -> ExtensionTarget<D> {
        let mut acc = starting_acc;
        for (a, b) in pairs {
            let p = self.mul_extension(a, b);
            let p = self.mul_const_extension(constant, p);
            acc = self.add_extension(acc, p);
        }
        acc
    }

    pub fn arithmetic_extension(
        &mut self,
        const_0: F,
        const_1: F,
        m0: ExtensionTarget<D>,
        m1: ExtensionTarget<D>,
        addend: ExtensionTarget<D>,
    ) -> ExtensionTarget<D> {
        let p = self.mul_extension(m0, m1);
        let p = self.mul_const_extension(const_0, p);
        let a = self.mul_const_extension(const_1, addend);
        self.add_extension(p, a)
    }
}
