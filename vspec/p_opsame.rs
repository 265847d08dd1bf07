/// whoever adds or subtracts amounts has to show that they are of one commodity: the operators refuse others
pub open spec fn amt_op_req(a: Amount, b: Amount) -> bool { a.commodity == b.commodity }
