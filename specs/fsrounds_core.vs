@map R => FS
verus! {
@item src/piop/verifier.rs VerifierState
@item src/piop/verifier.rs VerifierLookupAggregationRound derive=Copy,Clone
@item src/piop/verifier.rs VerifierPermutationMsg derive=Copy,Clone
@item src/piop/verifier.rs VerifierFirstMsg derive=Copy,Clone
@item src/piop/verifier.rs VerifierSecondMsg derive=Copy,Clone
pub open spec fn drawn(a: Seq<Ev>, b: Seq<Ev>) -> bool { b == a.push(Ev::Draw) }
// every round draws its challenges one after the other from the transcript
// as it is and keeps them in the state; nothing else of the state changes
impl PIOPforPolyIdentity {
@fn src/piop/verifier.rs PIOPforPolyIdentity::init_verifier
@spec
    ensures r.lookup_aggregation_msg is None, r.permutation_msg is None, r.first_round_msg is None, r.second_round_msg is None
@end
@fn src/piop/verifier.rs PIOPforPolyIdentity::verifier_lookup_aggregation_round strip=R
@spec
    ensures
        final(rng).log() == old(rng).log().push(Ev::Draw),
        r.0.theta@ == challenge(old(rng).log()),
        r.1 == (VerifierState { lookup_aggregation_msg: Some(r.0), ..state }),
@end
@fn src/piop/verifier.rs PIOPforPolyIdentity::verifier_permutation_round strip=R
@spec
    ensures
        final(rng).log() == old(rng).log().push(Ev::Draw).push(Ev::Draw),
        r.0.beta@ == challenge(old(rng).log()),
        r.0.gamma@ == challenge(old(rng).log().push(Ev::Draw)),
        r.1 == (VerifierState { permutation_msg: Some(r.0), ..state }),
@end
@fn src/piop/verifier.rs PIOPforPolyIdentity::verifier_first_round strip=R
@spec
    ensures
        final(rng).log() == old(rng).log().push(Ev::Draw),
        r.0.alpha@ == challenge(old(rng).log()),
        r.1 == (VerifierState { first_round_msg: Some(r.0), ..state }),
@end
@fn src/piop/verifier.rs PIOPforPolyIdentity::verifier_second_round strip=R
@spec
    ensures
        final(rng).log() == old(rng).log().push(Ev::Draw),
        r.0.xi@ == challenge(old(rng).log()),
        r.1 == (VerifierState { second_round_msg: Some(r.0), ..state }),
@end
}
}
