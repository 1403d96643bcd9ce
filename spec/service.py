"""ISO/IEC 7813 service codes: what each digit means, as the tool words it."""


def rows(rest, *pairs):
    out = [rest] * 10
    for text, digits in pairs:
        for d in digits:
            out[d] = text
    return out


# label: (which digit, the text for each digit value)
DIGITS = {
    "Interchange:": (0, rows("RFU", ("International", (1, 2)), ("National", (5, 6)), ("Private", (7,)), ("Test", (9,)))),
    "Technology:": (0, rows("Magnetic stripe only (MSR)", ("Integrated circuit card (ICC)", (2, 6)))),
    "Authorisation Processing:": (1, rows("RFU", ("Normal", (0,)), ("By issuer only (no offline authorisation)", (2,)),
                                          ("By issuer only unless an explicit bilateral agreement applies (no offline authorisation)", (4,)))),
    "Allowed Services:": (2, rows("RFU", ("No restrictions", (0, 1, 6)), ("Goods and services only", (2, 5, 7)), ("ATM only", (3,)), ("Cash only", (4,)))),
    "PIN Requirements:": (2, rows("None", ("PIN required", (0, 3, 5)), ("Prompt for PIN if PIN pad is present", (6, 7)))),
}
