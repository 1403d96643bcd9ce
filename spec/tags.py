"""The tool's EMV data dictionary (EMV Book 3, annex A) and the tags that are decoded."""

NAMES = {
    '42': 'Issuer Identification Number (IIN)',
    '4F': 'Application Dedicated File (ADF) Name',
    '50': 'Application Label',
    '57': 'Track 2 Equivalent Data',
    '5A': 'Application Primary Account Number (PAN)',
    '5F20': 'Cardholder Name',
    '5F24': 'Application Expiration Date',
    '5F25': 'Application Effective Date',
    '5F28': 'Issuer Country Code',
    '5F2A': 'Transaction Currency Code',
    '5F2D': 'Language Preference',
    '5F30': 'Service Code',
    '5F34': 'Application Primary Account Number (PAN) Sequence Number',
    '5F36': 'Transaction Currency Exponent',
    '5F50': 'Issuer URL',
    '5F53': 'International Bank Account Number (IBAN)',
    '5F54': 'Bank Identifier Code (BIC)',
    '5F55': 'Issuer Country Code (alpha2 format)',
    '5F56': 'Issuer Country Code (alpha3 format)',
    '5F57': 'Account Type',
    '61': 'Application Template',
    '6F': 'File Control Information (FCI) Template',
    '70': 'READ RECORD Response Message Template',
    '71': 'Issuer Script Template 1',
    '72': 'Issuer Script Template 2',
    '73': 'Directory Discretionary Template',
    '77': 'Response Message Template Format 2',
    '80': 'Response Message Template Format 1',
    '81': 'Amount, Authorised (Binary)',
    '82': 'Application Interchange Profile',
    '83': 'Command Template',
    '84': 'Dedicated File (DF) Name',
    '86': 'Issuer Script Command',
    '87': 'Application Priority Indicator',
    '88': 'Short File Identifier (SFI)',
    '89': 'Authorisation Code',
    '8A': 'Authorisation Response Code',
    '8C': 'Card Risk Management Data Object List 1 (CDOL1)',
    '8D': 'Card Risk Management Data Object List 2 (CDOL2)',
    '8E': 'CVM List',
    '8F': 'Certification Authority Public Key Index (ICC)',
    '90': 'Issuer Public Key Certificate',
    '91': 'Issuer Authentication Data',
    '92': 'Issuer Public Key Remainder',
    '93': 'Signed Static Application Data',
    '94': 'Application File Locator (AFL)',
    '95': 'Terminal Verification Results (TVR)',
    '97': 'Transaction Certificate Data Object List (TDOL)',
    '98': 'Transaction Certificate (TC) Hash Value',
    '99': 'Transaction PIN Data',
    '9A': 'Transaction Date',
    '9B': 'Transaction Status Information (TSI)',
    '9C': 'Transaction Type',
    '9D': 'Directory Definition File (DDF) Name',
    '9F01': 'Acquirer Identifier',
    '9F02': 'Amount, Authorised (Numeric)',
    '9F03': 'Amount, Other (Numeric)',
    '9F04': 'Amount, Other (Binary)',
    '9F05': 'Application Discretionary Data',
    '9F06': 'Application Identifier (AID)',
    '9F07': 'Application Usage Control',
    '9F08': 'Application Version Number (ICC)',
    '9F09': 'Application Version Number (Terminal)',
    '9F0B': 'Cardholder Name Extended',
    '9F0D': 'Issuer Action Code - Default',
    '9F0E': 'Issuer Action Code - Denial',
    '9F0F': 'Issuer Action Code - Online',
    '9F10': 'Issuer Application Data (CCD-Compliant)',
    '9F11': 'Issuer Code Table Index',
    '9F12': 'Application Preferred Name',
    '9F13': 'Last Online Application Transaction Counter (ATC) Register',
    '9F14': 'Lower Consecutive Offline Limit',
    '9F15': 'Merchant Category Code',
    '9F16': 'Merchant Identifier',
    '9F17': 'PIN Try Counter',
    '9F18': 'Issuer Script Identifier',
    '9F1A': 'Terminal Country Code',
    '9F1B': 'Terminal Floor Limit',
    '9F1C': 'Terminal Identification',
    '9F1D': 'Terminal Risk Management Data',
    '9F1E': 'Interface Device (IFD/Terminal) Serial Number',
    '9F1F': 'Track 1 Discretionary Data',
    '9F20': 'Track 2 Discretionary Data',
    '9F21': 'Transaction Time',
    '9F22': 'Certification Authority Public Key Index (Terminal)',
    '9F23': 'Upper Consecutive Offline Limit',
    '9F26': 'Application Cryptogram',
    '9F27': 'Cryptogram Information Data (CID)',
    '9F2D': 'ICC PIN Encipherment Public Key Certificate',
    '9F2E': 'ICC PIN Encipherment Public Key Exponent',
    '9F2F': 'ICC PIN Encipherment Public Key Remainder',
    '9F32': 'Issuer Public Key Exponent',
    '9F33': 'Terminal Capabilities',
    '9F34': 'CVM Results',
    '9F35': 'Terminal Type',
    '9F36': 'Application Transaction Counter (ATC)',
    '9F37': 'Unpredictable Number',
    '9F38': 'Processing Options Data Object List (PDOL)',
    '9F39': 'POS Entry Mode',
    '9F3A': 'Amount, Reference Currency (Binary)',
    '9F3B': 'Application Reference Currency',
    '9F3C': 'Transaction Reference Currency Code',
    '9F3D': 'Transaction Reference Currency Exponent',
    '9F40': 'Additional Terminal Capabilities',
    '9F41': 'Transaction Sequence Counter',
    '9F42': 'Application Currency Code',
    '9F43': 'Application Reference Currency Exponent',
    '9F44': 'Application Currency Exponent',
    '9F45': 'Data Authentication Code',
    '9F46': 'ICC Public Key Certificate',
    '9F47': 'ICC Public Key Exponent',
    '9F48': 'ICC Public Key Remainder',
    '9F49': 'Dynamic Data Authentication Data Object List (DDOL)',
    '9F4A': 'Static Data Authentication Tag List',
    '9F4B': 'Signed Dynamic Application Data',
    '9F4C': 'ICC Dynamic Number',
    '9F4D': 'Log Entry',
    '9F4E': 'Merchant Name and Location',
    '9F4F': 'Log Format',
    'A5': 'File Control Information (FCI) Proprietary Template',
    'BF0C': 'File Control Information (FCI) Issuer Discretionary Data',
}

# tag: (decoder, tolerant of unknown values: the text its annotation contains)
DECODED = {
    "5F30": ("non_emv::service_code::ServiceCode", None),
    "8A": ("emv::authorisation_response_code::AuthorisationResponseCode", "Unrecognised"),
    "8E": ("emv::cvm_list::CardholderVerificationMethodList", None),
    "95": ("emv::tvr::TerminalVerificationResults", None),
    "9B": ("emv::tsi::TransactionStatusInformation", None),
    "9C": ("emv::transaction_type::TransactionType", "Unrecognised"),
    "9F0D": ("emv::iac::default::IssuerActionCodeDefault", None),
    "9F0E": ("emv::iac::denial::IssuerActionCodeDenial", None),
    "9F0F": ("emv::iac::online::IssuerActionCodeOnline", None),
    "9F10": ("emv::ccd::iad::IssuerApplicationData", "Not CCD-Compliant"),
    "9F33": ("emv::terminal_capabilities::TerminalCapabilities", None),
    "9F34": ("emv::cvm_results::CardholderVerificationMethodResults", None),
    "9F35": ("emv::terminal_type::TerminalType", "Unrecognised"),
    "9F39": ("emv::pos_entry_mode::PosEntryMode", "Unrecognised"),
    "9F40": ("emv::additional_terminal_capabilities::AdditionalTerminalCapabilities", None),
}
