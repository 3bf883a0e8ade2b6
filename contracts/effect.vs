@include common.vs

@type translator/effect.rs EffectKind
@type translator/effect.rs Effect
@type translator/effect.rs Environment
@raw
/// the value of a variable: zero unless something was stored
spec fn val(e: Environment, slot: u8) -> u8 { if e.0@.contains_key(slot) { e.0@[slot] } else { 0 } }
/// what an effect makes of the old value
spec fn effect_on(k: EffectKind, v: u8) -> u8 {
    match k {
        EffectKind::Increment => if v < 255 { (v + 1) as u8 } else { 255u8 },
        EffectKind::Decrement => if v > 0 { (v - 1) as u8 } else { 0u8 },
        EffectKind::Set(x) => x,
    }
}
@fn translator/effect.rs Environment::new ret=r
@spec
    ensures forall|s: u8| val(r, s) == 0,
@fn translator/effect.rs Environment::get ret=r
@spec
    ensures r == val(*self, slot),
@fn translator/effect.rs Environment::apply
@spec
    ensures forall|s: u8| val(*final(self), s) == (if s == effect.slot { effect_on(effect.kind, val(*old(self), s)) } else { val(*old(self), s) }),
@fn translator/effect.rs Effect::new ret=r
@spec
    ensures r.slot == slot, r.kind == EffectKind::Set(value),
@fn translator/effect.rs Effect::increment ret=r
@spec
    ensures r.slot == slot, r.kind is Increment,
@fn translator/effect.rs Effect::decrement ret=r
@spec
    ensures r.slot == slot, r.kind is Decrement,
