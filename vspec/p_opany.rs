/// the operators are verified for all amounts (and refuse amounts of different commodities)
pub open spec fn amt_op_req(a: Amount, b: Amount) -> bool { true }
