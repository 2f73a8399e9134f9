use super::types::Field;
pub fn get_unique_coset_shifts<F: Field>(_subgroup_size: usize, num_shifts: usize) -> Vec<F> {
    F::MULTIPLICATIVE_GROUP_GENERATOR.powers().take(num_shifts).collect()
}
