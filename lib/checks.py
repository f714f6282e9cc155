import cli, files, grams, lexers, names, parsers, units, whole
CHECKS = {"C15": files.c15, "C16": files.c16, "C17": files.c17, "C05": grams.c05, "C06": grams.c06, "C07": grams.c07, "C04": grams.c04, "C18": cli.c18, "C19": cli.c19, "C20": grams.c20, "C22": grams.c22, "C01": lexers.c01, "C02": lexers.c02, "C03": lexers.c03,
          "C08": parsers.c08, "C09": parsers.c09, "C10": parsers.c10, "C11": parsers.c11, "C12": parsers.c12, "C13": parsers.c13, "C14": parsers.c14, "C21": parsers.c21, "C23": whole.c23, "C24": names.c24, "C25": parsers.c25, "C26": whole.c26, "C27": units.c27, "C28": units.c28, "C29": units.c29, "C30": parsers.c30}
