CLAIMED = {
 "C01": "",
 "C06": "",
 "C07": "",
 "C22": "",
 "C15": "",
 "C10": "",
 "C08": "",
 "C09": "",
 "C05": "",
 "C02": "",
 "C03": "",
 "C04": "",
 "C13": "",
 "C11": "",
 "C14": "",
 "C12": "",
 "C16": "",
 "C17": "",
 "C18": "",
 "C21": "",
 "C19": "",
 "C20": "",
 "C24": "",
 "C23": "",
 "C25": "",
 "C26": "",
 "C27": "",
}
NOT_APPLICABLE = {}
