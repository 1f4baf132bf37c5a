"""Which module decides which property."""
IR = ("Static: the headers are compiled to LLVM IR from /repo's current source and every path is interpreted over "
      "symbolic sizes, contents and addresses with the primitive below the property kept opaque; nothing is executed "
      "and no solver is asked about paths.")
CANON = ("Static: abstract interpretation of the compiled source (LLVM IR) over values in a canonical form "
         "(xor of products of rotated words and sums modulo 2^w; polynomials with floor quotients), the loop over the "
         "blocks generalised to an inductive state; equality with the standard's formula is identity of canonical forms.")

MACHINE = ("Static: the assembled code (disassembled from /repo's current .asm sources) is interpreted instruction by instruction "
           "over values in canonical form, together with its C++ caller's LLVM IR; nothing is executed.")
CHOICE = ("Static: abstract interpretation of static initialisation and dispatch (LLVM IR) with the answers of cpuid unknown; the "
          "conditions of each way through are tabulated against the extensions read off the assembled instructions.")
EFFECT = ("Static: interprocedural effect analysis (call graph, effects on memory by root object, unwinding) of the LLVM IR of a witness "
          "that instantiates the whole public interface from /repo's current headers.")
TYPES = ("Static: type-level witnesses. Programs generated from the documented interface are given to the compilers' semantic analysis "
         "only (no code runs); each forbidden program is paired with a permitted twin that differs in the misuse alone.")

CHECKS = {
    "P01": (["hash_stream"], IR),
    "P02": (["cipher_stream"], IR),
    "P03": (["poly_stream"], IR),
    "P04": (["hmac"], IR),
    "P05": (["kdf:run_hkdf"], IR),
    "P06": (["kdf:run_pbkdf", "kdf:run_pbkdf_counter"], IR),
    "P07": (["aead", "aead:run_wrapper"], IR),
    "P08": (["verify"], IR),
    "P09": (["bounds"], IR),
    "P10": (["codec"], IR),
    "P11": (["front", "front:run_aead"], IR),
    "P12": (["life:run_copies"], IR),
    "P13": (["life:run_erase"], IR),
    "P14": (["kernels:run_poly"], CANON),
    "P15": (["kernels:run_blocks"], CANON),
    "P16": (["machine:run_functions"], MACHINE),
    "P17": (["machine:run_convention"], MACHINE),
    "P19": (["flow"], IR),
    "P18": (["dispatch"], CHOICE),
    "P20": (["api:run_state"], EFFECT),
    "P21": (["api:run_throw"], EFFECT),
    "P22": (["api:run_alloc"], EFFECT),
    "P23": (["compiles:run_usable"], TYPES),
    "P24": (["compiles:run_misuse"], TYPES),
}
