# Generates json.json: the character classes of generated JSON texts (see JsonText.tla).
import json, os
L = {"ws": [" ", "\n", "\t", "\r"],
     "lit": ["1", "null", "true", "false", "0", "-0.5e+10", "1E400", "-12", "3.14159", "0e-1"],
     "plain": ["a", "é", "日", "😀", "\u007f", "\u00a0", "\u2028", "\u2029", "\u0085", "\u3000", "\ufeff", "0", "'", "İ", "\u1680", "\ud7ff", "\ue000", "x" * 300, "é " * 200],
     "space": [" "], "punct": [",", ":", "[", "]", "{", "}", "/", "*", "-"],
     "esc": ["\"", "\\", "/", "b", "f", "n", "r", "t", "u0022", "u005C", "u00e9", "ud83d\\ude00", "u0000", "\\" * 255, "\\" * 257, "\\" * 513, "\\" * 127 + "\\\"" ]}
json.dump(L, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "json.json"), "w"), ensure_ascii=True, indent=0)
