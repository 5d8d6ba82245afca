NA = {
}
NOTES = "Trusts the AST rewriting and the z3 models; both are cross-checked on every run by replaying path models and all counterexamples on the unmodified package."
