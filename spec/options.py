"""The operations of the command line, from the tool's documentation: option, decoded type, how the value is read."""

OPERATIONS = {
    # option: (what decodes it, how the text becomes its input)
    "tvr": ("emv::tvr::TerminalVerificationResults", "hex"),
    "ccd-iad": ("emv::ccd::iad::IssuerApplicationData", "hex"),
    "ccd-cvr": ("emv::ccd::cvr::CardVerificationResults", "hex"),
    "tsi": ("emv::tsi::TransactionStatusInformation", "hex"),
    "cvm-results": ("emv::cvm_results::CardholderVerificationMethodResults", "hex"),
    "cvm-list": ("emv::cvm_list::CardholderVerificationMethodList", "hex"),
    "identify": ("emv::tag_basic_info::TagBasicInfo", "hex"),
    "service-code": ("non_emv::service_code::ServiceCode", "number"),
    "auto-tlv": ("emv::tlv_parsing::auto_tlv::parse", "tlv"),
    "ber-tlv": ("emv::tlv_parsing::ber_tlv::parse", "tlv-hex"),
    "ingenico-tlv": ("emv::tlv_parsing::ingenico_tlv::parse", "tlv"),
}

# every name that selects an operation or a setting on the command line
OPTION_NAMES = {
    "tvr": ["tvr", "95", "iac", "tac", "-t"],
    "ccd-iad": ["ccd-iad", "9F10", "9f10", "iad"],
    "ccd-cvr": ["ccd-cvr", "cvr"],
    "tsi": ["tsi", "9B", "9b"],
    "cvm-results": ["cvm-results", "9F34", "9f34", "cvm-result", "-r"],
    "cvm-list": ["cvm-list", "8E", "8e"],
    "identify": ["identify", "id"],
    "service-code": ["service-code", "5F30", "5f30"],
    "auto-tlv": ["auto-tlv", "auto", "parse-tlv", "parse", "-a"],
    "ber-tlv": ["ber-tlv", "ber", "-b"],
    "ingenico-tlv": ["ingenico-tlv", "ingenico", "-i"],
}

SETTING_NAMES = {
    "colour": ["colour", "color"],
    "masking-character": ["masking-character", "masking-char", "masking", "-m"],
    "sort-parsed-tags": ["sort-parsed-tags", "sort"],
    "no-sort-parsed-tags": ["no-sort-parsed-tags", "no-sort"],
}

# what an option means that is given without a value
MISSING = {"colour": "always", "sort-parsed-tags": "true", "no-sort-parsed-tags": "true"}
