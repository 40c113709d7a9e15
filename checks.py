"""Registry: which harness units decide which property."""
A = dict
CAPI = ["bindings/c/src/*.c*"]
CHECKS = {
    "C01": A(units=[A(src="h_spectral.cpp")], rule="one case = one transform of one seeded signal of one length; non-trivial when the signal has more than one sample and is not all zero"),
    "C02": A(units=[A(src="h_spectral.cpp")], rule="one case = one operation on seeded signals of one length; non-trivial when the length exceeds one and no signal is all zero"),
    "C03": A(units=[A(src="h_spectral.cpp")], rule="one case = one history of operations on one or several engines; non-trivial when it has at least two operations"),
    "C04": A(units=[A(src="h_thread.cpp", flags=["-rdynamic"]), A(src="h_thread.cpp", san="tsan", flags=["-rdynamic"])], rule="one case = one concurrent run of a seeded set of jobs on several threads; always non-trivial (every job is compared with its sequential result)"),
    "C05": A(units=[A(src="h_window.cpp")], rule="one case = one window of one length and precision; non-trivial when the length is at least two"),
    "C29": A(units=[A(src="h_window.cpp")], rule="one case = one block of argument values of one helper; non-trivial unless the block only holds equal arguments"),
    "C06": A(units=[A(src="h_filter.cpp")], rule="one case = one section, cascade or response with seeded coefficients and signal; non-trivial when there is at least one section and the signal is not all zero"),
    "C07": A(units=[A(src="h_filter.cpp")], rule="one case = one filter designed for one seeded specification; always non-trivial (the response is compared at 60+ frequencies)"),
    "C08": A(units=[A(src="h_filter.cpp")], rule="one case = one history of samples, resets and resizes on one moving filter; always non-trivial"),
    "C19": A(units=[A(src="h_types.cpp")], rule="one case = one string operation on one seeded string (list); non-trivial when the string is not empty (split: contains the delimiter; join: has two parts)"),
    "C20": A(units=[A(src="h_types.cpp")], rule="one case = one seeded history of 8-68 operations on one ring, compared with the model after each; always non-trivial"),
    "C09": A(units=[A(src="h_source.cpp")], rule="one case = one oscillator with one seeded history of parameter changes, resets and samples; non-trivial unless the amplitude is zero"),
    "C10": A(units=[A(src="h_source.cpp")], rule="one case = one seeded history of one envelope, or one companded signal; always non-trivial"),
    "C11": A(units=[A(src="h_source.cpp")], rule="one case = one generator with one seeded parameter set, 2,000-20,000 draws; always non-trivial"),
    "C12": A(units=[A(src="h_array.cpp")], rule="one case = one operation on one seeded signal of one length; non-trivial when the signal has more than one sample and is not all zero"),
    "C13": A(units=[A(src="h_array.cpp")], rule="one case = one generated space; non-trivial when it has more than one point"),
    "C14": A(units=[A(src="h_array.cpp")], rule="one case = one sequence with one value, searched and compared in all ways; non-trivial when the sequence has more than one element"),
    "C15": A(units=[A(src="h_array.cpp")], rule="one case = one block of 40-500 values, or one complex signal; non-trivial when there is more than one value"),
    "C16": A(units=[A(src="h_stats.cpp")], rule="one case = all statistics of one seeded signal; non-trivial when it has more than one sample and is not all zero"),
    "C17": A(units=[A(src="h_stats.cpp")], rule="one case = all features of one seeded signal (pair, frame sequence); non-trivial when it has more than one sample and is not all zero"),
    "C18": A(units=[A(src="h_stats.cpp")], rule="one case = all features of one seeded set of spectra; non-trivial when they have more than one bin"),
    "C21": A(units=[A(src="h_io.cpp", flags=["-rdynamic"])], rule="one case = one seeded multi-channel signal written in portions and read back in portions through several decoders and an independent reader; non-trivial when it has at least one frame"),
    "C22": A(units=[A(src="h_io.cpp", flags=["-rdynamic"])], rule="one case = one history of one encoder or decoder, one damaged file, or one faulty transfer; always non-trivial"),
    "C23": A(units=[A(src="h_io.cpp", flags=["-rdynamic"])], rule="one case = one stream of blocks through one resampler; always non-trivial"),
    "C24": A(units=[A(src="h_io.cpp", flags=["-rdynamic"])], rule="one case = one file; always non-trivial"),
    "C25": A(units=[A(src="h_core.cpp", flags=["-rdynamic"]), A(src="h_core.cpp", san="tsan", flags=["-rdynamic"])], rule="one case = one history of operations on several variables, or one concurrent run; always non-trivial"),
    "C26": A(units=[A(src="h_core.cpp", flags=["-rdynamic"]), A(src="h_core.cpp", san="none", cxx="clang++", flags=["-rdynamic", "-UUSE_LIBFFTW", "-DUSE_LIBPFFFT", "-UUSE_LIBSNDFILE", "-DUSE_LIBAUDIOFILE", "-UUSE_LIBSAMPLERATE", "-DUSE_LIBRESAMPLE"]),
                   A(src="h_core.cpp", san="none", flags=["-rdynamic", "-UUSE_LIBFFTW", "-DUSE_LIBACCELERATE", "-UUSE_LIBSNDFILE", "-UUSE_LIBSAMPLERATE"]), A(src="h_core.cpp", san="none", std="c++17", flags=["-rdynamic", "-UUSE_LIBFFTW"]),
                   A(src="h_core.cpp", san="tsan", flags=["-rdynamic"])], rule="one case = one logger with one seeded list of items, one concurrent run, or one configuration; always non-trivial"),
    "C27": A(units=[A(src="h_capi.cpp", c_srcs=["capi_client.c"], repo_srcs=CAPI, deps=["capi_table.h"]), A(src="h_capi.cpp", c_srcs=["capi_client.c"], repo_srcs=CAPI, deps=["capi_table.h"], flags=["-DENABLE_SINGLE"])],
             rule="one case = one call of one function (all statistics: one case) on one seeded input; non-trivial when it has more than one sample and is not all zero"),
    "C28": A(units=[A(src="py_driver.py", pymodule=True)],
             rule="one case = one call of one function (or one life of one object) on one seeded array in one memory layout, or one call that must be rejected; always non-trivial"),
}

CHECKS["C32"] = A(units=[A(src="h_vocab.cpp")], rule="one case = one history of 40 operations on four objects, or one string or array examined in all ways; non-trivial unless the string or array is empty")


def _configurations():
    """Every C++ monitor again in the other supported build configurations, with the contract assertions enabled."""
    quick = [("g++", "c++14", "o3", ["-UNDEBUG"]), ("clang++", "c++17", "opt", ["-UNDEBUG"])]
    more = [("g++", "c++17", "opt", []), ("clang++", "c++14", "o3", []), ("g++", "c++17", "o0", ["-UNDEBUG"])]
    units = []
    for i, (cxx, std, san, flags) in enumerate(quick + more):
        for p in sorted(CHECKS):
            base = CHECKS[p]["units"][0]
            if base.get("pymodule"):
                continue
            u = A(base, cxx=cxx, std=std, san=san, flags=base.get("flags", []) + flags + ["-DVM_BRIEF"], as_prop=p, baseline=base)
            if i >= len(quick):
                u["thorough_only"] = True
            units.append(u)
    return units


CHECKS["C30"] = A(units=_configurations(), rule="one case = one case of one of the other properties in one more build configuration")

CHECKS["C31"] = A(units=[A(src="h_headers.cpp", headers=True, cxx="g++", std="c++14", san="asan"), A(src="h_headers.cpp", headers=True, cxx="clang++", std="c++17", san="none"),
                         A(src="h_headers.cpp", headers=True, cxx="clang++", std="c++14", san="none", orders=9, thorough_only=True), A(src="h_headers.cpp", headers=True, cxx="g++", std="c++17", san="none", orders=9, thorough_only=True)],
                  rule="one case = one header exercised with one seeded input in every kind of program, or one setting written and read by two units; always non-trivial except when both units are the same")
