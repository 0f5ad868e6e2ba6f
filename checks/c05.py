from checks.product_common import record

SRS = ["plus_times", "min_plus", "max_plus", "max_min", "or_and", "xor_and", "plus_minus", "plus_first", "plus_second", "plus_pair", "min_first", "max_second"]


def check(ctx):
    for sr in (SRS if ctx.thorough else ["plus_minus", "min_plus", "xor_and"]):
        ctx.model("TermsMC", None, cfgtext='CONSTANT SR = "%s"\nINIT Init\nNEXT Next\nINVARIANT TermsMeanSums TermsWithinEntry\nCHECK_DEADLOCK FALSE\n' % sr)
    variants = []
    for group, tok, it, n in [(1, 1, "int", 40), (1, 12, "int64_t", 60), (1, 24, "int", 30), (2, 1, "int64_t", 40), (2, 12, "int", 60), (2, 24, "int", 40),
                              (12, 1, "int", 50), (12, 24, "int64_t", 70), (111, 12, "int", 60), (111, 1, "int64_t", 40), (112, 24, "int", 60)]:
        variants.append(("%d_%d" % (group, tok), ["-DGROUP=%d" % group, "-DTOK=%d" % tok, "-DTOKIT=%s" % it, "-DNCASES=%d" % n]))
    record(ctx, "tokens.cpp", variants, "TokenTrace", "tokens", fallback=["-DEAGER"])
