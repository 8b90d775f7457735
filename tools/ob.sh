# ob.sh PROP obligation : run through framework machinery w/ SA_DEBUG and only that obligation
