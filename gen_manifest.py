#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present in pbt/."""
import json, os, glob
R = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C01": "property-based testing against a direct-definition reference convolution",
 "C02": "property-based testing against a direct-definition reference and constant-image relation",
 "C03": "property-based testing against a clipped-window average reference",
 "C04": "property-based testing: reference composition plus range, constant and transpose relations",
 "C05": "property-based testing against an index-formula reference",
 "C06": "property-based testing against closed-form kernels and algebraic relations",
 "C07": "property-based testing against a flood-fill reference",
 "C08": "property-based testing with a validity predicate over contours (flood-fill regions)",
 "C09": "stateful model-based testing against a vector of vectors",
 "C10": "property-based testing against a pixelwise reference",
 "C11": "property-based testing against a reference and an optimality predicate",
 "C12": "property-based testing against a reference with float tolerance band, histories of reuse",
 "C13": "property-based testing against a block-partition reference",
 "C14": "stateful model-based testing of image containers with aliasing model",
 "C15": "stateful model-based testing of arrays and kernels",
 "C16": "property-based testing against direct computation",
 "C17": "metamorphic property-based testing: sub-image versus copy, frame conditions, sanitizer",
 "C18": "property-based testing of the JNI layer through a recording fake JNIEnv, differential against the library",
 "C19": "fault-argument property-based testing with state snapshots",
 "C20": "property-based testing against a pixelwise reference",
 "C21": "stateful metamorphic testing: reused versus fresh objects",
 "C22": "stateful property-based testing of the JNI contour finder through fake Java objects",
 "C24": "stateful property-based testing of the Java classes on a real Java VM, differential against the library",
 "C25": "property-based testing over generated file system and class path layouts, child Java VMs",
 "C27": "concurrent property-based testing: generated programs of calls in Java threads against the same programs alone",
 "C26": "concurrent property-based testing: generated calls in threads against the same calls alone, ThreadSanitizer",
 "C28": "property-based testing: printed text parsed back against the stored values",
 "C29": "fault-injecting property-based testing: every allocation of a generated call fails once, against the undisturbed call",
 "C30": "fault-injecting property-based testing: allocations and virtual machine calls of a generated native call fail one by one, against the undisturbed call",
 "C31": "metamorphic property-based testing: pixels outside of a neighbourhood changed, images cropped",
 "C23": "property-based testing against exact arithmetic",
}
THREADS = "Searches generated combinations of calls in threads, each case in a process of its own, against a sequential run, in an -O3 build and in a ThreadSanitizer build. It cannot establish absence: interleavings are those the scheduler gives, races those whose accesses ThreadSanitizer still remembers. Trusts pbt/%s.cpp, pbt/ops.h, g++ and ThreadSanitizer."
JAVA = "Searches generated histories with an explicit oracle on a Java 17 VM (C24 with -Xcheck:jni) and the shared JNI library built with -O3; failures are shrunk and replayed three times. It cannot establish absence. BoofCV itself is not available offline: the Java code runs against the stand-ins in java/stubs. Trusts pbt/%s.cpp, the stand-ins, javac, the VM and g++."
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(R, "pbt", i.lower() + "*.cpp")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": (JAVA if i in ("C24", "C25", "C27") else THREADS if i == "C26" else "Searches generated inputs/histories with an explicit oracle in an -O3 build and in an AddressSanitizer build (thorough adds coverage-guided fuzzing); failures are shrunk and replayed three times. It cannot establish absence. Trusts the oracle in pbt/%s.cpp and pbt/oracle.h, g++/clang++ and ASan; the input domain is stated in the evidence file's assumptions.") % i.lower(),
        })
    else:
        na.append({"property": i, "reason": "harness not built yet"})
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check compiles the harness, the engine and /repo's sources from scratch. Repairs of genuine defects are listed in known_findings.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
