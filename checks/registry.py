import config
import small
import system

CHECKS = {
    "C01": config.c01,
    "C02": config.c02,
    "C03": config.c03,
    "C04": config.c04,
    "C05": small.c05,
    "C06": small.c06,
    "C07": small.c07,
    "C08": small.c08,
    "C09": system.c09,
    "C11": system.c11,
    "C12": system.c12,
    "C13": system.c13,
    "C14": system.c14,
    "C17": system.c17,
    "C18": system.c18,
    "C19": system.c19,
    "C20": system.c20,
    "C25": system.c25,
    "C21": system.c21,
    "C24": system.c24,
    "C26": system.c26,
    "C31": system.c31,
    "C32": system.c32,
    "C35": system.c35,
    "C36": system.c36,
    "C15": system.c15,
    "C16": system.c16,
    "C22": system.c22,
    "C23": system.c23,
    "C30": system.c30,
    "C10": system.c10,
    "C27": system.c27,
    "C28": system.c28,
    "C29": system.c29,
    "C33": system.c33,
    "C34": system.c34,
    "C37": system.c37,
    "C38": system.c38,
    "C39": system.c39,
    "C40": system.c40,
}
