"""The code tables of the enumerations, as the tool defines them (EMV Book 3 annex C, Book 4 annex A, ISO 8583:1987, CCD)."""

ENUMS = {
    'emv::transaction_type::TransactionType': {
        "error": 'Unrecognised',
        "slice": True,
        "table": {
            0x00: 'Purchase',
            0x01: 'Cash Advance',
            0x02: 'Void',
            0x09: 'Purchase With Cashback',
            0x20: 'Refund',
            0x31: 'Balance Inquiry',
            0x38: 'Mini Statement',
            0x40: 'Fund Transfer',
        },
    },
    'emv::terminal_type::TerminalType': {
        "error": 'Unrecognised',
        "slice": True,
        "table": {
            0x11: 'Attended, Online-Only, Controlled by a Financial Institution',
            0x12: 'Attended, Offline With Online Capabilities, Controlled by a Financial Institution',
            0x13: 'Attended, Offline-Only, Controlled by a Financial Institution',
            0x14: 'Unattended, Online-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)',
            0x15: 'Unattended, Offline With Online Capabilities, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)',
            0x16: 'Unattended, Offline-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)',
            0x21: 'Attended, Online-Only, Controlled by a Merchant',
            0x22: 'Attended, Offline With Online Capabilities, Controlled by a Merchant',
            0x23: 'Attended, Offline-Only, Controlled by a Merchant',
            0x24: 'Unattended, Online-Only, Controlled by a Merchant',
            0x25: 'Unattended, Offline With Online Capabilities, Controlled by a Merchant',
            0x26: 'Unattended, Offline-Only, Controlled by a Merchant',
            0x34: 'Unattended, Online-Only, Controlled by the Cardholder (self-attended, home PC, etc.)',
            0x35: 'Unattended, Offline With Online Capabilities, Controlled by the Cardholder (self-attended, home PC, etc.)',
            0x36: 'Unattended, Offline-Only, Controlled by the Cardholder (self-attended, home PC, etc.)',
        },
    },
    'emv::pos_entry_mode::PosEntryMode': {
        "error": 'Unrecognised',
        "slice": True,
        "table": {
            0x00: 'Unknown',
            0x01: 'Manual (keyed entry)',
            0x02: 'Magnetic Stripe Reader (MSR)',
            0x03: 'Barcode',
            0x04: 'Optical Character Recognition (OCR)',
            0x05: 'Integrated Circuit Chip (ICC) - Data Reliable (contact/insert transaction) (CVV can be checked)',
            0x06: 'Magnetic Stripe Track 1',
            0x07: 'Contactless Chip (contactless/tap transaction)',
            0x08: 'Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied',
            0x09: 'E-Commerce - Including Remote Chip',
            0x10: 'Merchant Has Cardholder Credentials On File (token, recurring payment, etc.)',
            0x80: 'ICC Could Not Process - Fallback to MSR',
            0x81: 'E-Commerce - Including Chip',
            0x82: 'Via a Server (issuer, acquirer, third-party vendor)',
            0x83: 'Contactless Chip (contactless/tap transaction)',
            0x90: 'Magnetic Stripe Reader (MSR) - Full Track Data - Data Reliable (CVV can be checked)',
            0x91: 'Contactless Magnetic Stripe Data (MSD)',
            0x92: 'Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied',
            0x95: 'Integrated Circuit Chip (ICC) - Data Unreliable (contact/insert transaction) (CVV cannot be checked)',
        },
    },
    'emv::cv_rule::cv_method::CvMethod': {
        "error": 'NonCompliant',
        "slice": False,
        "table": {
            0x00: 'Fail CVM processing',
            0x01: 'Plaintext PIN verification performed by ICC',
            0x02: 'Enciphered PIN verified online',
            0x03: 'Plaintext PIN verification performed by ICC and signature (paper)',
            0x04: 'Enciphered PIN verification performed by ICC',
            0x05: 'Enciphered PIN verification performed by ICC and signature (paper)',
            0x1E: 'Signature (paper)',
            0x1F: 'No CVM required',
            0x3F: 'No CVM performed',
        },
    },
    'emv::cv_rule::cvm_condition::CvmCondition': {
        "error": 'NonCompliant',
        "slice": False,
        "table": {
            0x00: 'Always',
            0x01: 'If unattended cash',
            0x02: 'If not unattended cash and not manual cash and not purchase with cashback',
            0x03: 'If terminal supports the CVM',
            0x04: 'If manual cash',
            0x05: 'If purchase with cashback',
            0x06: 'If transaction is in the application currency and is under X value',
            0x07: 'If transaction is in the application currency and is over X value',
            0x08: 'If transaction is in the application currency and is under Y value',
            0x09: 'If transaction is in the application currency and is over Y value',
        },
    },
    'emv::cvm_results::CvmResult': {
        "error": 'NonCompliant',
        "slice": False,
        "table": {
            0x00: 'Unknown',
            0x01: 'Failed',
            0x02: 'Successful',
        },
    },
    'emv::ccd::cci::FormatCode': {
        "error": 'NonCcdCompliant',
        "slice": False,
        "table": {
            0x0A: 'Format A',
        },
    },
    'emv::ccd::cci::CryptogramVersion': {
        "error": 'NonCcdCompliant',
        "slice": False,
        "table": {
            0x05: 'Triple DES (3DES)',
            0x06: 'AES',
        },
    },
    'emv::ccd::cvr::GenAc1ApplicationCryptogramType': {
        "error": 'NonCcdCompliant',
        "slice": False,
        "table": {
            0x00: 'AAC (Application Authentication Cryptogram)',
            0x01: 'TC (Transaction Certificate)',
            0x02: 'ARQC (Authorization Request Cryptogram)',
            0x03: 'RFU (Reserved For Use)',
        },
    },
    'emv::ccd::cvr::GenAc2ApplicationCryptogramType': {
        "error": 'NonCcdCompliant',
        "slice": False,
        "table": {
            0x00: 'AAC (Application Authentication Cryptogram)',
            0x01: 'TC (Transaction Certificate)',
            0x02: 'Second GENERATE AC not requested',
            0x03: 'RFU (Reserved For Use)',
        },
    },
    'emv::tlv_parsing::TagClass': {
        "error": 'NonCompliant',
        "slice": False,
        "table": {
            0x00: 'Universal',
            0x01: 'Application',
            0x02: 'Context-Specific',
            0x03: 'Private',
        },
    },
}

ARC_ERROR = "Unrecognised"
ARC = {
    '00': 'Approval',
    '01': 'Call',
    '02': 'Call - Special Conditions',
    '03': 'Terminal ID Error',
    '04': 'Hold Card - Call',
    '05': 'Decline - Do Not Honour',
    '06': 'Error',
    '07': 'Hold Card - Call - Special Conditions',
    '08': 'Honour With Identification',
    '09': 'No Original Transaction',
    '10': 'Partial Approval',
    '11': 'Approved (VIP)',
    '12': 'Invalid Transaction',
    '13': 'Invalid Amount',
    '14': 'Invalid Card Number',
    '15': 'No Such Issuer',
    '16': 'Approved - Update Track 3',
    '17': 'Customer Cancellation',
    '18': 'Customer Dispute',
    '19': 'Retry Transaction',
    '20': 'Invalid Response',
    '21': 'No Action Taken',
    '22': 'Suspected Malfunction',
    '23': 'Invalid Minimum Amount',
    '24': 'File Update Not Supported',
    '25': 'Invalid ICC Data',
    '26': 'Duplicate File Update Record',
    '27': 'File Update Field Edit Error',
    '28': 'File Update File Locked Out',
    '29': 'File Update Not Successful',
    '30': 'Format Error',
    '31': 'Bank Not Supported By Switch',
    '32': 'Completed Partially',
    '33': 'Expired Card',
    '54': 'Expired Card',
    '34': 'Suspected Fraud',
    '59': 'Suspected Fraud',
    '35': 'Card Acceptor, Contact Acquirer',
    '60': 'Card Acceptor, Contact Acquirer',
    '36': 'Restricted Card',
    '62': 'Restricted Card',
    '37': 'Card Acceptor, Call Acquirer Security',
    '66': 'Card Acceptor, Call Acquirer Security',
    '38': 'Allowable PIN Retries Exceeded',
    '75': 'Allowable PIN Retries Exceeded',
    '39': 'No Credit Account',
    '40': 'Requested Function Not Supported',
    '41': 'Lost Card',
    '42': 'No Universal Account',
    '43': 'Stolen Card',
    '44': 'No Investment Account',
    '51': 'Insufficient Funds',
    '52': 'No Chequing Account',
    '53': 'No Savings Account',
    '55': 'Incorrect PIN',
    '56': 'No Card Record',
    '57': 'Transaction Not Allowed For Cardholder',
    '58': 'Transaction Not Allowed For Terminal',
    '61': 'Debit Cashback Withdrawal Limit Decline',
    '63': 'Security Violation',
    '64': 'Original Amount Incorrect',
    '65': 'Decline - Insert Card (often due to too many contactless transactions)',
    '67': 'ATM Hard Card Capture',
    '68': 'Response Received Too Late',
    '91': 'Issuer Timeout',
    '92': 'Issuer Routing Problem',
    '93': 'Transaction Not Completed - Law Violation',
    '94': 'Duplicate Transmission',
    '95': 'Reconciliation Error',
    '96': 'System Malfunction',
}
