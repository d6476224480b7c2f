// Builds library objects through the public interface from model nodes.
#pragma once
#include "model.hpp"
#include "vf.h"
octet_string *bOct(const Node &n);
void *bNum(const Node &n, int size);
sml_boolean *bBool(const Node &n);
sml_value *bValue(const Node &n);
sml_status *bStatus(const Node &n);
sml_time *bTime(const Node &n);
sml_tree_path *bPath(const Node &n);
sml_proc_par_value *bPpv(const Node &n);
sml_tree *bTree(const Node &n);
sml_list *bList(const Node &n);
sml_period_entry *bPeriod(const Node &n);
sml_tupel_entry *bTupel(const Node &n);
sml_prof_obj_header_entry *bHdr(const Node &n);
sml_prof_obj_period_entry *bPope(const Node &n);
sml_value_entry *bVEntry(const Node &n);
void *bBodyData(uint32_t tag, const Node &d);
sml_message_body *bBody(const Node &n);
sml_message *bMsg(const Msg &m);
