fm = "math/fee_math.rs"
M("bit repeated", "C25", (fm, "if exp & 0x20 > 0 {", "if exp & 0x10 > 0 {"))
M("high bit order", "C25", (fm, "    if exp & 0x4000 > 0 {\n        result = (result.checked_mul(squared_base)?) >> SCALE_OFFSET\n    }\n\n    squared_base = (squared_base.checked_mul(squared_base)?) >> SCALE_OFFSET;\n    if exp & 0x8000", "    if exp & 0x4000 > 0 {\n        result = (result.checked_mul(squared_base)?) >> SCALE_OFFSET\n    }\n\n    if exp & 0x8000"))
M("bps base", "C25", (fm, ".safe_div(BASIS_POINT_MAX.into())?;", ".safe_div((BASIS_POINT_MAX + 1).into())?;"))
M("shift less", "C25", (fm, ".overflowing_shr(SCALE_OFFSET);", ".overflowing_shr(SCALE_OFFSET - 1);"))
import re
src = open("/repo/programs/dynamic-bonding-curve/src/" + fm).read()
a = src.index("    // From right to left"); b = src.index("    // Stop here as the next is 20th bit")
S("loop", "C25 C17", (fm, src[a:b], "    let mut e = exp;\n    while e > 0 {\n        if e & 1 == 1 {\n            result = (result.checked_mul(squared_base)?) >> SCALE_OFFSET;\n        }\n        e >>= 1;\n        squared_base = (squared_base.checked_mul(squared_base)?) >> SCALE_OFFSET;\n    }\n"))
S("for loop", "C25", (fm, src[a:b], "    for bit in 0..19u32 {\n        if exp & (1 << bit) > 0 {\n            result = (result.checked_mul(squared_base)?) >> SCALE_OFFSET;\n        }\n        squared_base = (squared_base.checked_mul(squared_base)?) >> SCALE_OFFSET;\n    }\n"))
