"""What each property is decided with (see DESIGN.md)."""
PROPS = {
    "C13": dict(
        design=[dict(module="WordArith", cfg="WordArith.cfg", thorough="WordArith_thorough.cfg", workers=4)],
        suites=[dict(suite="modarith", trace="ModArithTrace", shards=4)],
    ),
    "C22": dict(
        design=[dict(module="WideWord", cfg="WideWord_thorough.cfg", workers=4)],
        suites=[dict(suite="utils", trace="UtilTrace", shards=4)],
    ),
    "C12": dict(
        design=[dict(module="Ntt", cfg="Ntt.cfg", thorough="Ntt_thorough.cfg", workers=4),
                dict(module="Ntt", cfg="Ntt4.cfg", thorough_only=True, workers=4)],
        suites=[dict(suite="ntt", trace="NttTrace", cfg="TraceV.cfg", shards=6)],
    ),
    "C14": dict(
        design=[dict(module="RnsBij", cfg="RnsBij.cfg", thorough="RnsBij_thorough.cfg", workers=2)],
        suites=[dict(suite="rns", trace="RnsTrace", shards=4)],
    ),
    "C15": dict(
        design=[dict(module="RnsScale", cfg="RnsScale.cfg", workers=4)],
        suites=[dict(suite="scale", trace="RnsTrace", shards=6)],
    ),
    "C16": dict(
        design=[dict(module="RnsSwitch", cfg="RnsSwitch.cfg", workers=4)],
        suites=[dict(suite="switch", trace="RnsTrace", shards=6)],
    ),
    "C17": dict(
        design=[dict(module="Ring", cfg="Ring.cfg", thorough="Ring_thorough.cfg", workers=3)],
        suites=[dict(suite="ring", trace="RingTrace", cfg="TraceV.cfg", shards=6,
                     gen=dict(module="RingProg", cfg="RingProg.cfg", num=(360, 1600), depth=26))],
    ),
    "C04": dict(
        design=[dict(module="BfvDesignMC", cfg="BfvDesign_enc.cfg", workers=2)],
        suites=[dict(suite="bfv_enc", trace="BfvTrace", cfg="TraceV.cfg", shards=7, heap="3g", args=["enc"],
                     gen=dict(module="BfvProg", cfg="BfvProg_enc.cfg", num=(150, 900), depth=20)),
                dict(suite="large", trace="LargeTrace", cfg="TraceV.cfg", shards=6, args=["enc"])],
    ),
    "C05": dict(
        design=[dict(module="BfvDesignMC", cfg="BfvDesign_lin.cfg", thorough="BfvDesign_lin_thorough.cfg", workers=2)],
        suites=[dict(suite="bfv", trace="BfvTrace", cfg="TraceV.cfg", shards=7, heap="3g", args=["lin"],
                     gen=dict(module="BfvProg", cfg="BfvProg_lin.cfg", num=(160, 1200), depth=20)),
                dict(suite="large", trace="LargeTrace", cfg="TraceV.cfg", shards=6, args=["lin"])],
    ),
    "C06": dict(
        design=[dict(module="BfvDesignMC", cfg="BfvDesign_mul.cfg", thorough="BfvDesign_mul_thorough.cfg", workers=2),
                dict(module="BfvDesignMC", cfg="BfvDesign_prod.cfg", thorough="BfvDesign_prod_thorough.cfg", workers=2)],
        suites=[dict(suite="bfv", trace="BfvTrace", cfg="TraceV.cfg", shards=7, heap="3g", args=["mul"],
                     gen=dict(module="BfvProg", cfg="BfvProg_mul.cfg", num=(220, 1200), depth=20)),
                dict(suite="large", trace="LargeTrace", cfg="TraceV.cfg", shards=6, args=["mul"])],
    ),
    "C07": dict(
        design=[dict(module="BfvDesignMC", cfg="BfvDesign_ks.cfg", thorough="BfvDesign_ks_thorough.cfg", workers=2)],
        suites=[dict(suite="bfv_galois", trace="BfvTrace", cfg="TraceV.cfg", shards=7, heap="3g", args=["galois"],
                     gen=dict(module="BfvProg", cfg="BfvProg_gal.cfg", num=(150, 900), depth=20)),
                dict(suite="large", trace="LargeTrace", cfg="TraceV.cfg", shards=6, args=["galois"])],
    ),
    "C08": dict(
        design=[dict(module="BfvDesignMC", cfg="BfvDesign_ks.cfg", thorough="BfvDesign_ks_thorough.cfg", workers=2)],
        suites=[dict(suite="bfv_keyswitch", trace="BfvTrace", cfg="TraceV.cfg", shards=7, heap="3g", args=["external"],
                     gen=dict(module="BfvProg", cfg="BfvProg_ext.cfg", num=(150, 900), depth=20)),
                dict(suite="large", trace="LargeTrace", cfg="TraceV.cfg", shards=6, args=["external"])],
    ),
    "C09": dict(
        design=[dict(module="BfvDesignMC", cfg="BfvDesign_enc.cfg", workers=2),
                dict(module="BfvDesignMC", cfg="BfvDesign_prod.cfg", thorough="BfvDesign_prod_thorough.cfg", workers=2)],
        suites=[dict(suite="bfv_noise", trace="BfvTrace", cfg="TraceV.cfg", shards=7, heap="3g", args=["noise"],
                     gen=dict(module="BfvProg", cfg="BfvProg_all.cfg", num=(220, 1200), depth=20))],
    ),
    "C11": dict(
        design=[dict(module="Simd", cfg="Simd.cfg", workers=2),
                dict(module="Simd", cfg="Simd_thorough.cfg", workers=4, thorough_only=True),
                dict(module="Simd", cfg="Simd8.cfg", workers=4, thorough_only=True)],
        suites=[dict(suite="simd", trace="SimdTrace", cfg="TraceV.cfg", shards=6)],
    ),
    "C03": dict(
        design=[dict(module="Expand", cfg="Expand.cfg", thorough="Expand_thorough.cfg", workers=2),
                dict(module="Expand", cfg="Expand8.cfg", workers=1)],
        suites=[dict(suite="expand", trace="ExpandTrace", cfg="TraceX.cfg", shards=7)],
    ),
    "C01": dict(
        design=[dict(module="Pir", cfg="Pir.cfg", thorough="Pir_thorough.cfg", workers=2)],
        suites=[dict(suite="retrieve", trace="PirTrace", cfg="TraceV.cfg", shards=7),
                dict(suite="retrieve_large", trace="PirTrace", cfg="TraceV.cfg", shards=6, heap="3g"),
                dict(suite="shapes", trace="PirTrace", cfg="TraceV.cfg", shards=7,
                     gen=dict(module="PirShape", cfg="PirShape.cfg", thorough="PirShape_thorough.cfg", mode="all", num=(0, 0)))],
    ),
    "C02": dict(
        design=[dict(module="Pir", cfg="Pir2.cfg", thorough="Pir2_thorough.cfg", workers=2)],
        suites=[dict(suite="histories", trace="PirTrace", cfg="TraceV.cfg", shards=7,
                     gen=dict(module="PirProg", cfg="PirProg.cfg", num=(150, 900), depth=24))],
    ),
    "C21": dict(
        design=[dict(module="CbdPool", cfg="CbdPool.cfg", thorough="CbdPool_thorough.cfg", workers=1)],
        suites=[dict(suite="sampler", trace="SamplerTrace", cfg="TraceV.cfg", shards=7)],
    ),
    "C18": dict(
        design=[dict(module="Pvw", cfg="Pvw.cfg", thorough="Pvw_thorough.cfg", workers=2)],
        suites=[dict(suite="pvw", trace="PvwTrace", cfg="TraceV.cfg", shards=7)],
    ),
    "C10": dict(
        design=[dict(module="Fresh", cfg="Fresh.cfg", thorough="Fresh_thorough.cfg", workers=2)],
        suites=[dict(suite="fresh", trace="FreshTrace", cfg="TraceV.cfg", shards=7, heap="3g",
                     gen=dict(module="Fresh", cfg="FreshProg.cfg", num=(150, 900), depth=20))],
    ),
    "C19": dict(
        design=[dict(module="Params", cfg="Params.cfg", thorough="Params_thorough.cfg", workers=2)],
        suites=[dict(suite="params", trace="ParamsTrace", shards=6)],
    ),
    "C20": dict(
        design=[dict(module="Refusal", cfg="Refusal.cfg", workers=2)],
        suites=[dict(suite="refusal", trace="RefusalTrace", cfg="RefusalTrace.cfg", shards=7,
                     gen=dict(module="Refusal", cfg="RefusalProg.cfg", num=(0, 0), mode="all")),
                dict(suite="refusal", name="refusal_plain", profile="plain", trace="RefusalTrace", cfg="RefusalTrace.cfg", shards=7,
                     gen=dict(module="Refusal", cfg="RefusalProg.cfg", num=(0, 0), mode="all"))],
    ),
}
