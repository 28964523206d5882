import tasks
import tasks_dme
import tasks_copy
import tasks_ot
import tasks_puda
import tasks_sss
import tasks_util
import tasks_aes
import tasks_elgamal
import tasks_opprf
