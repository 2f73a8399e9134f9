//! Stand-in: `tt_call!` with the one form of continuation that mozak-vm uses.
#[macro_export]
macro_rules! tt_call {
    { macro = [{ $m:ident }] $( $input:ident = [{ $($tokens:tt)* }] )* ~~> $callback:ident $(! )? } => {
        $m! { { $callback } $( $input = [{ $($tokens)* }] )* }
    };
}
#[macro_export]
macro_rules! tt_return {
    { { $callback:ident } $($rest:tt)* } => { $callback! { $($rest)* } };
}
