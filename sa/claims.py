"""What is claimed, property by property (source of MANIFEST.json; see tools/meta.py)."""

COMMON = ("The deciding step reads only /repo's source on every run. Trusted: the analyser's model of Python, of the few library calls the package makes "
          "(lark, re, dataclasses, enum, collections.abc) and of the documented public interface. An obligation the analyser cannot decide is counted as "
          "undecided in the evidence and raises no alarm.")

ZONE = ("Relational abstract interpretation over all books, chapters, verses and flags at once (difference bounds with trace partitioning; the Bible tables as functions under "
        "congruence). A partition counts as holding only if no precision was lost on the way to it.")

SHAPE = ("Every list shape up to four numbers or three ranges in every grouping, with unknown items and unknown indices; an operation's result is shown equal to a freshly built list link by link, "
         "so sequences of operations add no further shapes. Longer lists are not explored.")

CLAIM = {
    "C03": "Decided for all callers: the frozen-class mechanism is read off the class definition, and every write in every public operation is shown not to reach a verse or range.",
    "C04": "A sound over-approximation of every write and every sharing of mutable objects by each public query.",
    "C05": "Identity of the result, the set of objects written, and termination when the operand is the list itself are decided on an abstract heap.",
    "C13": "Non-interference: an information-flow over-approximation from the global flags to every result, exception and branch; no flow means no influence on any input.",
    "C14": "Non-interference between two consecutive parses in one abstract heap.",
    "C15": "An over-approximation of the exceptions that can leave each string constructor, with a model of which errors the grammar engine can raise.",
    "C19": "An over-approximation of the kinds of values each public operation can store in a list.",
    "C20": "Constant propagation through the module-level tables is exact; the assignments are decided by label flow from arbitrary new data.",
    "C21": "The recognition patterns are built by constant propagation and compared as regular languages (automata): acceptance of every name and emptiness of every pairwise intersection are exact.",
    "C22": "Exact for the dependence of grammar and printer on the current separators; punctuation characters stand for all characters that are neither digits, letters nor white space.",
    "C01": ZONE, "C02": ZONE, "C24": ZONE, "C25": ZONE + " Lists: of up to two ranges.", "C26": ZONE, "C27": ZONE,
    "C07": ZONE + " Lists of up to two ranges (a range, verse or list of up to two as the other operand): all orders and overlaps of them within a chapter, and one-item lists across neighbouring "
           "chapters and books. Longer lists are not explored.",
    "C08": ZONE + " Lists of up to three ranges (four in the thorough run) in every order and overlap within a chapter, and of two across neighbouring chapters and books with every combination of flags.",
    "C10": ZONE + " Distances: within a chapter, and into the next chapter, the chapter after next, the next book and past either end; longer distances repeat the same step and are not explored.",
    "C11": ZONE + " Ranges that end in the same chapter, the next, the one after or the next book; pieces of one to three verses.",
    "C12": ZONE + " Ranges that end in the same chapter, the next, the one after or the next book; lists of up to two; every book of the Bible.",
    "C16": SHAPE, "C17": SHAPE, "C18": SHAPE, "C28": SHAPE, "C29": SHAPE,
    "C30": "The call graph is resolved by abstract interpretation for lists of unknown length: no cycle means constant depth. For a cycle, depth is derived on abstract lists of 4 to 32 items only.",
    "C31": ZONE + " Lists of one and two ranges; the grouping of an item depends on the text level reached by its predecessors, of which one is explored.",
    "C23": ZONE + " Any verse, any range that stays in its chapter, leaves it or leaves its book, and lists of up to two ranges in either grouping, "
           "in the combinations of options named in the evidence; longer lists are not explored. The grammar is parsed by the analyser's own model of an Earley parser, not by lark.",
    "C06": ZONE, "C09": ZONE + " Lists: of up to two ranges anywhere, three within a chapter.",
}

STATEMENT = {
    "C23": "Parsing the string form of any verse, range or non-empty range list, in full or abbreviated form, with either verse separator, with or without explicit start verses, "
           "under the same flags, gives an equal verse, range or list, including the same grouping for lists.",
    "C25": "Converting 0 to 1 maps a verse 0 to verse 1 of the same chapter and leaves every other verse as it is; converting 1 to 0 maps a verse 1 to verse 0 exactly in chapters that have one, "
           "whatever the global flags. On ranges both ends, and on lists every range, are converted in place of the originals with order, grouping and number of items kept; "
           "converting never fails, also for multi-book ranges.",
    "C29": "Once the first item of a group has been removed from its list or no longer starts a group, or the list was cleared, every read, write or delete through a view obtained earlier "
           "raises the group-view error and changes no list.",
    "C09": "The bounding range of a list starts at the earliest start and ends at the latest end of any of its ranges, whatever their order or nesting. "
           "The chapter-bounded and book-bounded ranges of a verse, range or list run from the first verse (under the flags in effect) of the chapter or book of the earliest start "
           "to the last verse of that of the latest end.",
    "C05": "An augmented set assignment (|=, &=, -=, ^=, +=) leaves the name bound to the very same list object and changes no other list or global state. "
           "This also holds when the right-hand operand is the list itself or one of its groups, in which case the update still terminates.",
    "C14": "Parsing a string gives the same result or the same error no matter which strings, valid or invalid, were parsed before it. "
           "Nothing the outcome of a parse depends on is left behind by, or shared with, another parse.",
    "C22": "After any of the five separator characters is changed to another punctuation character not otherwise in use, both parsing and printing use the new character "
           "for that role, and only for that role, from the next call on, whatever was parsed before and in whatever order several separators are changed.",
}

DROP = set()
NEW = []

NA = {
    "C32": "running time of the parsing library on arbitrary strings is not visible in this source",
    "C33": "the language accepted is decided by the external Earley parser together with semantic actions; deciding equality with the documented syntax is outside static analysis of this source",
}
