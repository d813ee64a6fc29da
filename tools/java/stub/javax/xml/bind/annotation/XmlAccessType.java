package javax.xml.bind.annotation;

import java.lang.annotation.*;

/** Stands in for JAXB's, with its targets and the elements that generated code uses. */
public enum XmlAccessType {
    PROPERTY, FIELD, PUBLIC_MEMBER, NONE
}
