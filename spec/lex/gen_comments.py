import json, os
json.dump({"block": ["*", "/", "!", "a", " ", "\n", "'", "\\", "é", "{"],
           "line": ["/", "*", "a", "'", "\\", "{", "é", "`", "!", " "],
           "html": ["[", "<!--", "-", "<", "!", ">", "]", "a", " ", "\n", "\"", "é", "/"]},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "comment_chars.json"), "w"), ensure_ascii=False)
