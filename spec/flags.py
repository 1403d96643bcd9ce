"""The bitflag data objects: (byte, bits, severity, field content, explanation), most significant first.

Taken from EMV Book 3 (annexes C3, C5, C6, C7), Book 4 (annexes A2, A3, A4) in the tool's wording.
The content is "flag" for a single bit, "number", or the name of an enumeration.
"""

FLAGS = {
    'emv::tvr::TerminalVerificationResults': (5, [
        (0, 0b10000000, 'Normal', 'flag', 'Offline data authentication was not performed'),
        (0, 0b01000000, 'Error', 'flag', 'SDA (Static Data Authentication) failed'),
        (0, 0b00100000, 'Error', 'flag', 'ICC data missing'),
        (0, 0b00010000, 'Error', 'flag', 'Card appears on terminal exception file'),
        (0, 0b00001000, 'Error', 'flag', 'DDA (Dynamic Data Authentication) failed'),
        (0, 0b00000100, 'Error', 'flag', 'CDA (Combined Data Authentication) failed'),
        (1, 0b10000000, 'Warning', 'flag', 'ICC and terminal have different application versions'),
        (1, 0b01000000, 'Error', 'flag', 'Expired application'),
        (1, 0b00100000, 'Error', 'flag', 'Application not yet effective'),
        (1, 0b00010000, 'Error', 'flag', 'Requested service not allowed for card product'),
        (1, 0b00001000, 'Warning', 'flag', 'New card'),
        (2, 0b10000000, 'Warning', 'flag', 'Cardholder verification was not successful'),
        (2, 0b01000000, 'Warning', 'flag', 'Unrecognised CVM (Cardholder Verification Method)'),
        (2, 0b00100000, 'Error', 'flag', 'PIN try limit exceeded'),
        (2, 0b00010000, 'Error', 'flag', 'PIN entry required and PIN pad not present or not working'),
        (2, 0b00001000, 'Warning', 'flag', 'PIN entry required, PIN pad present, but PIN was not entered (PIN bypass)'),
        (2, 0b00000100, 'Normal', 'flag', 'Online PIN entered'),
        (3, 0b10000000, 'Normal', 'flag', 'Transaction exceeds floor limit'),
        (3, 0b01000000, 'Normal', 'flag', 'Lower consecutive offline limit exceeded'),
        (3, 0b00100000, 'Normal', 'flag', 'Upper consecutive offline limit exceeded'),
        (3, 0b00010000, 'Normal', 'flag', 'Transaction selected randomly for online processing'),
        (3, 0b00001000, 'Normal', 'flag', 'Merchant forced transaction online'),
        (4, 0b10000000, 'Normal', 'flag', 'Default TDOL (Transaction Certificate Data Object List) used'),
        (4, 0b01000000, 'Error', 'flag', 'Issuer authentication failed'),
        (4, 0b00100000, 'Error', 'flag', 'Script processing failed before final GENERATE AC'),
        (4, 0b00010000, 'Error', 'flag', 'Script processing failed after final GENERATE AC'),
    ]),
    'emv::tsi::TransactionStatusInformation': (2, [
        (0, 0b10000000, 'Normal', 'flag', 'Offline data authentication was performed'),
        (0, 0b01000000, 'Normal', 'flag', 'Cardholder verification was performed'),
        (0, 0b00100000, 'Normal', 'flag', 'Card risk management was performed'),
        (0, 0b00010000, 'Normal', 'flag', 'Issuer authentication was performed'),
        (0, 0b00001000, 'Normal', 'flag', 'Terminal risk management was performed'),
        (0, 0b00000100, 'Normal', 'flag', 'Script processing was performed'),
    ]),
    'emv::terminal_capabilities::TerminalCapabilities': (3, [
        (0, 0b10000000, 'Normal', 'flag', 'Manual key entry'),
        (0, 0b01000000, 'Normal', 'flag', 'Magnetic stripe (MSR)'),
        (0, 0b00100000, 'Normal', 'flag', 'IC with contacts (ICC)'),
        (1, 0b10000000, 'Normal', 'flag', 'Plaintext PIN for ICC verification'),
        (1, 0b01000000, 'Normal', 'flag', 'Enciphered PIN for online verification'),
        (1, 0b00100000, 'Normal', 'flag', 'Signature (paper)'),
        (1, 0b00010000, 'Normal', 'flag', 'Enciphered PIN for offline verification'),
        (1, 0b00001000, 'Normal', 'flag', 'No CVM Required'),
        (2, 0b10000000, 'Normal', 'flag', 'SDA (Static Data Authentication)'),
        (2, 0b01000000, 'Normal', 'flag', 'DDA (Dynamic Data Authentication)'),
        (2, 0b00100000, 'Normal', 'flag', 'Card capture (ATM retaining the card)'),
        (2, 0b00001000, 'Normal', 'flag', 'CDA (Combined Data Authentication)'),
    ]),
    'emv::additional_terminal_capabilities::AdditionalTerminalCapabilities': (5, [
        (0, 0b10000000, 'Normal', 'flag', 'Cash'),
        (0, 0b01000000, 'Normal', 'flag', 'Goods'),
        (0, 0b00100000, 'Normal', 'flag', 'Services'),
        (0, 0b00010000, 'Normal', 'flag', 'Cashback'),
        (0, 0b00001000, 'Normal', 'flag', "Inquiry (request for information about one of the cardholder's accounts)"),
        (0, 0b00000100, 'Normal', 'flag', 'Transfer (between cardholder accounts at the same financial institution)'),
        (0, 0b00000010, 'Normal', 'flag', 'Payment (from a cardholder account to another party)'),
        (0, 0b00000001, 'Normal', 'flag', 'Administrative'),
        (1, 0b10000000, 'Normal', 'flag', 'Cash Deposit (into a bank account related to an application on the card used)'),
        (2, 0b10000000, 'Normal', 'flag', 'Numeric keys'),
        (2, 0b01000000, 'Normal', 'flag', 'Alphabetic and special characters keys'),
        (2, 0b00100000, 'Normal', 'flag', 'Command keys'),
        (2, 0b00010000, 'Normal', 'flag', 'Function keys'),
        (3, 0b10000000, 'Normal', 'flag', 'Print, attendant'),
        (3, 0b01000000, 'Normal', 'flag', 'Print, cardholder'),
        (3, 0b00100000, 'Normal', 'flag', 'Display, attendant'),
        (3, 0b00010000, 'Normal', 'flag', 'Display, cardholder'),
        (3, 0b00000010, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 10'),
        (3, 0b00000001, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 9'),
        (4, 0b10000000, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 8'),
        (4, 0b01000000, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 7'),
        (4, 0b00100000, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 6'),
        (4, 0b00010000, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 5'),
        (4, 0b00001000, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 4'),
        (4, 0b00000100, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 3'),
        (4, 0b00000010, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 2'),
        (4, 0b00000001, 'Normal', 'flag', 'ISO/IEC 8859 Code Table 1'),
    ]),
    'emv::ccd::cvr::CardVerificationResults': (5, [
        (0, 0b11000000, 'Normal', 'GenAc2ApplicationCryptogramType', 'Application cryptogram type returned in 2nd GENERATE AC: {}'),
        (0, 0b00110000, 'Normal', 'GenAc1ApplicationCryptogramType', 'Application cryptogram type returned in 1st GENERATE AC: {}'),
        (0, 0b00001000, 'Normal', 'flag', 'CDA (Combined Data Authentication) performed'),
        (0, 0b00000100, 'Normal', 'flag', 'Offline DDA (Dynamic Data Authentication) performed'),
        (0, 0b00000010, 'Warning', 'flag', 'Issuer authentication not performed'),
        (0, 0b00000001, 'Error', 'flag', 'Issuer authentication failed'),
        (1, 0b11110000, 'Normal', 'number', 'PIN try count: {}'),
        (1, 0b00001000, 'Normal', 'flag', 'Offline PIN verification performed'),
        (1, 0b00000100, 'Error', 'flag', 'Offline PIN verification performed and PIN not successfully verified'),
        (1, 0b00000010, 'Error', 'flag', 'PIN try limit exceeded'),
        (1, 0b00000001, 'Warning', 'flag', 'Last online transaction not completed'),
        (2, 0b10000000, 'Normal', 'flag', 'Lower offline transaction count limit exceeded'),
        (2, 0b01000000, 'Normal', 'flag', 'Upper offline transaction count limit exceeded'),
        (2, 0b00100000, 'Normal', 'flag', 'Lower cumulative offline amount limit exceeded'),
        (2, 0b00010000, 'Normal', 'flag', 'Upper cumulative offline amount limit exceeded'),
        (2, 0b00001000, 'Normal', 'flag', 'Issuer-discretionary bit 1'),
        (2, 0b00000100, 'Normal', 'flag', 'Issuer-discretionary bit 2'),
        (2, 0b00000010, 'Normal', 'flag', 'Issuer-discretionary bit 3'),
        (2, 0b00000001, 'Normal', 'flag', 'Issuer-discretionary bit 4'),
        (3, 0b11110000, 'Normal', 'number', 'Number of successfully processed issuer script commands containing secure messaging: {}'),
        (3, 0b00001000, 'Error', 'flag', 'Issuer script processing failed'),
        (3, 0b00000100, 'Warning', 'flag', 'Offline data authentication failed on previous transaction'),
        (3, 0b00000010, 'Normal', 'flag', 'Go online on next transaction'),
        (3, 0b00000001, 'Warning', 'flag', 'Unable to go online'),
    ]),
    'emv::ccd::cci::CommonCoreIdentifier': (1, [
        (0, 0b11110000, 'Normal', 'FormatCode', 'IAD Format Code: {}'),
        (0, 0b00001111, 'Normal', 'CryptogramVersion', 'Cryptogram Version: {}'),
    ]),
    'emv::cv_rule::CardholderVerificationRule': (2, [
        (0, 0b01000000, 'Normal', 'flag', 'Apply succeeding CV Rule if this CVM is unsuccessful'),
        (0, 0b00111111, 'Normal', 'OptionalCvMethod', 'Method: {}'),
        (1, 0b11111111, 'Normal', 'OptionalCvmCondition', 'Condition: {}'),
    ]),
    'emv::cvm_results::CardholderVerificationMethodResults': (3, [
        (0, 0b01000000, 'Normal', 'flag', 'Apply succeeding CV Rule if this CVM is unsuccessful'),
        (0, 0b00111111, 'Normal', 'OptionalCvMethod', 'Method: {}'),
        (1, 0b11111111, 'Normal', 'OptionalCvmCondition', 'Condition: {}'),
        (2, 0b11111111, {'Failed': 'Error'}, 'CvmResult', 'Result: {}'),
    ]),
}
