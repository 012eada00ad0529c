"""rsv: a contract-based deductive verifier for array programs (see DESIGN.md)."""
